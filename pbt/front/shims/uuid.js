exports.v4 = () => uuidSource();
