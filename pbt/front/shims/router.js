exports.useParams = () => routeParams;
exports.useNavigate = () => () => {};
exports.Link = "Link"; exports.RouterProvider = "RouterProvider"; exports.Outlet = "Outlet";
exports.createHashRouter = x => x; exports.createBrowserRouter = x => x; exports.createRoutesFromElements = x => x; exports.Route = "Route"; exports.useRouteError = () => undefined; exports.useLocation = () => ({ pathname: "/" });
