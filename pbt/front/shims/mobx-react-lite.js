const React = require("react");
const { observable, autorun } = require("mobx");
exports.observer = c => props => { const [, tick] = React.useReducer(x => x + 1, 0); React.useEffect(() => { let first = true; return autorun(() => { if (!first) tick(); first = false; }); }, []); return c(props); };
exports.useLocalObservable = make => React.useState(() => observable(make()))[0];
