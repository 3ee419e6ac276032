#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json (maintenance tool, not part of a check)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe_at=None, **kw):
    kw.update(observe_at=[observe_at] if observe_at else [])
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))


TRIE = 'src/router/route_trie.rs'
prop('C01', 'A request reaches exactly the handler its path and method select',
     'For every set of routes accepted at registration, every request path and every method, the handler that runs is the one a fixed rule over the list of registered patterns selects, and no other: the path is split into segments at "/" (empty segments do not count); going segment by segment, a literal segment equal to the path segment is preferred, then a parameter (:name, takes exactly one segment), then a trailing wildcard (*, takes all remaining segments, at least one; directly below a literal segment with no route of its own it also takes none); if a preferred branch does not lead to a route, the next one is tried. The pattern is selected first, over the routes of all methods; if it has no handler for the method of the request, or no pattern matches, the answer is 404 and no handler runs. This holds for routes registered on the App, on a Router, and in mounted routers and scopes.',
     ['inputs', 'programs'], 'all route tables x all request paths x all methods',
     'A test fixes a handful of tables and paths; which trie edges are split and merged depends on every shared prefix of the registered texts, so errors appear only for particular combinations of literals and paths (a segment that is a prefix of another, characters of several bytes, a dead end that needs backtracking).',
     [TRIE, 'src/router.rs', 'src/router/resource.rs', 'src/app.rs'],
     [('search', 'RouteTrie::search_route, Node::search_route'), ('insertion and splitting of edges', 'Node::process_insertion, Node::get_insertion_action'), ('method lookup', 'Resource::get_route'), ('dispatch', 'AppServer::resolve_endpoint')],
     observe_at='Router::search_route and the service App::listen builds', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C02', 'Path parameters carry the text of their own segment, and convert exactly',
     'When a request is routed to a pattern, the handler sees exactly the parameters of that pattern (those of a mount prefix included), each with the unchanged text of the path segment at its position - never a parameter of another branch that was tried, never a part of a segment or a neighbour. ctx.param::<T>(name) is that text for String; for the integer types the number the text denotes, and an error where it denotes none or does not fit; for bool true or false; an unknown name is an error, never a panic.',
     ['inputs', 'programs'], 'all patterns with parameters x all paths; all texts and all numbers around the bounds of the types',
     'The values are collected while a search that may backtrack runs over split edges; tests use short ASCII values at one position and small numbers.',
     [TRIE, 'src/context.rs'], [('collection while searching', 'Node::search_route'), ('conversion', 'Context::param')],
     observe_at='RouteValueResult::get_params, Context::param in a handler', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C03', 'A registration is refused exactly when it is ambiguous, duplicate or malformed',
     'Registering a route, a middleware path or a mount panics exactly when: a "*" is not a whole segment, or not the last one; the new path and one registered before (as route, middleware path or mount) agree up to a position where one has a parameter and the other has something else than the same parameter; a route repeats a pattern and method; or a router is mounted where anything at or below the mount path exists already (at "/", middlewares may exist). Everything else is accepted; a refusal never depends on how literals share characters.',
     ['programs', 'inputs'], 'all sequences of registrations, all pattern texts',
     'The tests register a few conflicting pairs; whether a conflict is noticed depends on how the trie happens to be split by all earlier registrations.',
     [TRIE], [('rules of insertion', 'Node::process_insertion, Node::get_insertion_action, Node::validate..'), ('mounting', 'RouteTrie::insert_sub_route'), ('duplicate methods', 'RouteTrie::insert_route')],
     observe_at='panic or return of get/post/put/patch/delete, use_service_to, use_router')
prop('C04', 'The order of registration does not change routing',
     'Registering the same routes, mounts and middleware paths in the reverse order gives a router that selects the same handler with the same parameters, and the same middlewares, for every path (middlewares registered at one and the same path keep their own relative order and are not part of this property).',
     ['programs', 'histories', 'inputs'], 'all sets of registrations x all paths',
     'Order changes which trie edges are split and when; a test fixes one order.',
     [TRIE], [('splitting', 'Node::process_insertion')], observe_at='Router::search_route')
prop('C05', 'Mounting a router equals registering its routes under the prefix',
     'For every router r and prefix p, use_router(p, r) (and scope) behaves, for every request path, exactly as if each route and middleware of r had been registered on the outer router with p in front: same handler, same parameters, same middlewares in the same order; what was registered on the outer router before stays as it was. Nested mounts compose.',
     ['programs', 'inputs'], 'all outer and inner routers, prefixes (literal and parameter segments), all paths',
     'Sub-tries are grafted onto split edges; the tests mount one router at one prefix.',
     [TRIE, 'src/router.rs', 'src/app.rs'], [('grafting', 'RouteTrie::insert_sub_route'), ('scope', 'App::scope')], observe_at='Router::search_route')
prop('C06', 'Empty segments make no difference, in requests and in registrations',
     'Leading, trailing and repeated slashes are irrelevant: a request path is routed (handler, parameters, middlewares) as its canonical form with one slash before each segment, and a route, middleware path or mount prefix registered with any slashes behaves as its canonical form.',
     ['inputs', 'programs'], 'all request paths and registered texts',
     'Slashes can be anywhere and in any number; tests try one or two spellings.',
     [TRIE], [('normalisation', 'RouteTrie::normalize_path and callers')], observe_at='Router::search_route')
prop('C07', 'Exactly the middlewares in scope run, outermost first, each once',
     'When a request is routed to a pattern, the middlewares that run before its handler are exactly those registered (use_service, use_service_to, on the app, on mounted routers and in scopes) at a path which is a segment-wise prefix of that pattern; those of shorter paths run first, those of one path in order of registration; each runs exactly once. A middleware at "/n" does not run for a route below "/nn".',
     ['programs', 'inputs'], 'all placements of middlewares and routes x all request paths',
     'Middlewares are collected along trie edges that are split at arbitrary characters; tests place two or three of them on fixed paths.',
     [TRIE, 'src/app.rs'], [('collection', 'Node::search_route'), ('registration', 'RouteTrie::insert_middleware, insert_default_middleware, insert_sub_route'), ('execution', 'EndpointExecutor::next')],
     observe_at='what each middleware sees of a request', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C08', 'A middleware controls what is inside of it, and nothing else',
     'For every chain of middlewares that each pass the request on, answer it themselves, fail, replace or drop the answer of the rest, recover from an error of the rest, or wait: what is inside of a middleware that does not call next does not run; what is outside runs to its end and sees the result (answer or error) of the inside; data a middleware adds to the context is there for everything inside; the answer to the client is the result of the outermost; and the next request runs through the same chain again.',
     ['programs', 'schedules'], 'all combinations of middleware and endpoint behaviours',
     'The combinations grow exponentially; tests have one chain in which everything passes.',
     ['src/app.rs', 'src/middleware.rs'], [('chain', 'EndpointExecutor::next'), ('answer', 'AppServer::resolve_endpoint')], observe_at='response and log of the chain', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C09', 'Registering middlewares never changes which handler and parameters are selected',
     'For every set of routes and middlewares and every request, the handler that is selected and its parameters are those the same routes give without any middleware; a path that only has middlewares never hides a route.',
     ['programs', 'inputs'], 'all placements of middlewares x all route tables x all paths',
     'A middleware path splits and adds trie nodes which have no route; only particular combinations with wildcards and prefixes expose a search that stops there.',
     [TRIE], [('nodes without route', 'RouteTrie::insert_middleware, Node::search_route')], observe_at='Router::search_route')
prop('C10', 'Every request gets the answer its outcome prescribes: 404, 500 or 200',
     'For every request: if nothing is routed, the answer is 404 with the body "404 Not Found"; if the handler or a middleware returns an error, it is 500 with exactly the text of the error as body; if it returns a context without a response, it is 200 with an empty body. No request makes the service fail or panic.',
     ['inputs', 'programs'], 'all methods and paths against failing, silent and answering endpoints; all error texts and kinds',
     'Tests look at one successful request.',
     ['src/app.rs', 'src/error/obsidian_error.rs'], [('dispatch', 'AppServer::resolve_endpoint, page_not_found'), ('error texts', 'ObsidianError: Display')], observe_at='HTTP response of the service', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C11', 'The response the client gets is the one the handler built',
     'Status, headers and body a handler sets through any of the interfaces (Response, ResponseBuilder, Responder; header by header, as lists, by name or by string) are, for every status, every header value and every body, those of the HTTP response, in particular every header that was set is there and of several values for one header name the last; no header that was not set appears. A header value that HTTP does not allow gives a 500 answer, never a panic.',
     ['inputs', 'programs'], 'all statuses, header values, bodies and combinations of the interfaces',
     'Tests look at a few statuses and never at the response the service sends.',
     ['src/app.rs', 'src/context.rs', 'src/router/response.rs', 'src/router/responder.rs', 'src/router/response_body.rs'],
     [('builder', 'ResponseBuilder'), ('response', 'Response::set_*'), ('headers', 'AppServer::resolve_endpoint')], observe_at='HTTP response of the service', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C12', 'A handler sees its own request, the app state, and nothing of other requests',
     'For every sequence of requests over several connections, each handler call sees exactly the method, URI, headers, extensions and body of its own request; the value of set_app_state, equal and shared, on every request of every connection (and none where none was set); and no data that another request added to its context.',
     ['histories', 'inputs'], 'all sequences of requests with arbitrary contents over two connections',
     'Tests send one request to a handler without state.',
     ['src/app.rs', 'src/context.rs'], [('state', 'App::set_app_state, App::listen, AppServer::resolve_endpoint'), ('request data', 'Context')], observe_at='inside the handler', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C13', 'Form bodies and query strings decode to exactly what they say, or to an error',
     'For every body (ctx.form) and every query string (ctx.query_params), the value given to the handler is the one the text means: names and values are split at & and = and percent/plus-decoded; pairs with an empty value do not count; a scalar field takes the first value of its name, a Vec field all of them in order, a tuple the first ones, an Option field none if the name is absent, a map all names; integers must fit their type exactly, bool is true or false, unknown names are ignored, absent required fields, texts that are no value of the type, and structs as fields are an error. Never a panic, never a value of another field.',
     ['inputs', 'programs'], 'all texts within the bounds x 22 target types',
     'Tests decode a handful of texts into two structs; separators, escapes, repetition and numeric limits interact.',
     ['src/context.rs', 'src/router/req_deserializer.rs'], [('splitting and merging', 'Context::parse_queries'), ('decoding', 'from_cow_map, FormDeserializer, FormValueDeserializer')], observe_at='result of ctx.form / ctx.query_params')
prop('C14', 'How a body is cut into chunks makes no difference; a broken body is an error',
     'For every body and every way it arrives - any number of chunks, empty ones included, cut anywhere, with waits in between - ctx.form and ctx.json give the same result as for the body in one piece, which is what the whole of its bytes denotes; if the stream fails at any point, they give an error, never a value decoded from the part that arrived.',
     ['inputs', 'schedules', 'fault_sequences'], 'all cuts, waits and failure points of all bodies within the bounds',
     'In tests the body is always one chunk that is there at once; on a network it is not.',
     ['src/context.rs'], [('reading', 'Context::form, Context::json')], observe_at='result of ctx.form / ctx.json')
prop('C15', 'JSON bodies are read and written exactly, errors included',
     'ctx.json gives, for every body, the value the JSON text denotes for the type (all of the text, numbers within the type, strings unchanged) and an error for every other body; the body is consumed. ctx.build_json / Response::json give, for every value, its JSON text with content type application/json and the status that is set afterwards; for a value that cannot be written a 500 answer with a text that says why. Never a panic.',
     ['inputs', 'programs'], 'all bodies and values within the bounds',
     'Tests use one object with two fields.',
     ['src/context.rs', 'src/router/response.rs'], [('reading', 'Context::json'), ('writing', 'Response::json, Context::build_json')], observe_at='result of ctx.json; HTTP response', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C16', 'Any map of names to lists of values deserializes as stated, never panicking',
     'from_cow_map gives, for every map of names to lists of values (empty lists and empty texts included) and every target type of structs, maps, scalars, Option, Vec and newtypes, the value where scalars take the first element, Vec takes every element in order (each from its own text only), Option is none for an empty list or an empty first element; and an error, never a panic or a value from another element, where an element is missing or does not denote a value of the type. Names the type does not have are ignored, whatever their values.',
     ['inputs', 'programs'], 'all maps within the bounds x 22 target types',
     'from_cow_map is public and takes maps the form parser never produces (empty lists, empty texts).',
     ['src/router/req_deserializer.rs'], [('decoding', 'from_cow_map, FormValueDeserializer, FromSeq, FromMap')], observe_at='result of from_cow_map')
prop('C17', 'A static route never opens a file outside its directory',
     'For every directory and virtual path given to use_static or use_static_to, and every request path - with "..", ".", repeated slashes, or anything else in it - every file that is opened lies in that directory: the path starts with the directory and never climbs above it.',
     ['inputs', 'configurations'], 'all request paths x directories and virtual paths x ways of registration',
     'Escapes hide in unusual combinations of dots, slashes and prefixes; tests never request a static file.',
     ['src/router.rs', 'src/router/response.rs'], [('path of the file', 'Router::static_file_handler, Router::is_contained'), ('opening', 'Response::file')], observe_at='arguments of open()', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C18', 'A static route serves the file the path names, byte for byte',
     'For every file name and content, GET of <virtual path>/<name> answers 200 with exactly the bytes of <directory>/<name> (whatever bytes), 404 where there is no such file, and no other file is opened; other methods get 404. ctx.build_file(path) does the same for the path it is given and keeps the headers that are set.',
     ['inputs', 'configurations'], 'all names and contents within the bounds x directories, virtual paths and ways of registration',
     'Names and contents are arbitrary; tests never serve a file.',
     ['src/router.rs', 'src/router/response.rs', 'src/context.rs'], [('path of the file', 'Router::use_static, Router::use_static_to'), ('content', 'Response::file, Context::build_file')], observe_at='arguments of open(), HTTP response', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C19', 'Every responder converts to the response it stands for',
     'For every text and status: String, &str, (), StatusCode, (StatusCode, T), Option<String>, Option<&str>, Vec<u8>, Response and the with_status forms become a response with the stated status (200; the given one; 404 for None), the text itself as body ("Not Found" for None, the JSON array of the bytes for Vec<u8>, empty for () and StatusCode), and the content type text/plain; charset=utf-8 for plain texts, text/html for html().',
     ['inputs'], 'all kinds of responders x all texts and statuses within the bounds',
     'Tests look at the status of two of them and never at the body.',
     ['src/router/responder.rs', 'src/router/response_body.rs', 'src/router/response.rs'], [('conversions', 'impl Responder for ..'), ('bodies', 'impl ResponseBody for ..')], observe_at='HTTP response', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C20', 'Requests in flight at the same time do not disturb each other',
     'For every interleaving of several requests in flight over one or more connections, each waiting in its middleware, handler and body, every request gets the answer computed from its own parameters, body, data and the shared state, exactly as if it had run alone.',
     ['schedules', 'inputs'], 'all poll orders of 2-4 requests with several waits each',
     'A test runs one request at a time.',
     ['src/app.rs', 'src/context.rs'], [('futures of the service', 'App::listen, AppServer::resolve_endpoint, EndpointExecutor::next')], observe_at='HTTP responses of the futures', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C21', 'The default logger changes nothing the client can see',
     'For every request, an App::default() (which logs every request) gives exactly the status, headers and body that the same app without the logger gives, also when the handler fails, gives no response or gives one with an invalid header; never a panic.',
     ['inputs', 'programs'], 'all request paths x endpoint behaviours',
     'Tests never run the logger.',
     ['src/middleware/logger.rs', 'src/app.rs'], [('logging', 'Logger::handle'), ('default', 'App::default')], observe_at='HTTP responses of both apps', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C22', 'A context holds what was put into it, wherever the request is in its chain',
     'For every history of operations on the context of a request - data added, read, changed and removed, headers changed, the body taken or read as form or JSON, the query read, a response set, changed or removed - by any of the middlewares and the handler it passes through, on the way in and out: every accessor gives what the last operation on that item left, no operation changes another item; method, URI and path parameters stay those of the request; the body can be read once and is empty afterwards; the response left at the end is the one the client gets.',
     ['histories', 'inputs'], 'all sequences of operations with all values, over all parts of the chain',
     'Histories multiply; tests call one accessor of a fresh context.',
     ['src/context.rs', 'src/app.rs'], [('accessors', 'impl Context'), ('hand over', 'EndpointExecutor::next, AppServer::resolve_endpoint')], observe_at='accessors of Context in middlewares and handlers', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C23', 'An answer does not depend on the requests before it',
     'For every sequence of requests to an app whose handlers keep no state, over any connections - served, refused, failed, routed to other methods, parameters, wildcards and mounted routers - every answer (status, headers, body) is the one a freshly started app gives to that request alone.',
     ['histories', 'inputs'], 'all sequences of requests within the bounds, over one or two connections',
     'A test sends one request to a new app; caches and leftovers show from the second one on.',
     ['src/app.rs', 'src/router.rs', 'src/router/route_trie.rs', 'src/context.rs'], [('service', 'App::listen, AppServer::resolve_endpoint'), ('search', 'RouteTrie::search_route')], observe_at='HTTP responses of the service', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
prop('C24', 'A copy of a router is a router of its own',
     'For every router: its copy (clone, clone_from) selects the same handler with the same parameters and the same middlewares for every request; whatever is registered or mounted on one of the two afterwards changes nothing in the other, also when one of them has been mounted meanwhile; and both can be mounted, side by side, with the same effect as two routers built separately.',
     ['histories', 'programs', 'inputs'], 'all registrations before and after the copy x all request paths within the bounds',
     'Router is Clone (App::listen itself copies it for each connection); what the copies share shows only in registrations made after the copy.',
     ['src/router.rs', 'src/router/route_trie.rs', 'src/router/resource.rs'], [('copy', 'impl Clone for Router, RouteTrie, Node, RouteValue, Resource'), ('registration', 'RouteTrie::insert_route, insert_middleware, insert_sub_route')], observe_at='Router::search_route and the chain it gives')
prop('C25', 'An abandoned request leaves nothing behind',
     'For every sequence of requests whose clients go away, each at any point of its handling (before it begins, while a middleware, the handler or the body waits, or after), over any connections: requests in flight meanwhile and requests that come later get exactly the answers of a freshly started app.',
     ['crash_points', 'histories', 'inputs'], 'all points at which the future of a request is dropped x all kinds of requests, within the bounds',
     'A test never drops a request that waits; what is not undone then (a count, a lock, data set aside) shows in other requests only.',
     ['src/app.rs', 'src/context.rs', 'src/middleware/logger.rs'], [('futures of the service', 'App::listen, AppServer::resolve_endpoint, EndpointExecutor::next')], observe_at='HTTP responses of the other requests', hook_needed='cfg(obsidian_verif): App::listen hands its service to a driver (src/verif.rs)')
NA = [
    ('C90', 'The server listens on 127.0.0.1 at the given port and speaks HTTP/1',
     'App::listen(port) accepts connections on 127.0.0.1:port only, and answers every well-formed HTTP/1.1 request on them with the response of the service.',
     ['inputs', 'schedules'], 'all request byte streams and connection schedules', 'Byte streams and schedules are unbounded.',
     ['src/app.rs'], [('listening', 'App::listen')],
     'the behaviour lies in hyper, tokio, epoll and the kernel: sockets, a multi-threaded reactor and the HTTP/1 parser are beyond what the IR of this crate lets a solver reach; everything from the service App::listen builds inwards is covered by C01-C25 through the cfg(obsidian_verif) hook'),
]
exec(open(os.path.join(R, 'lib', 'more_props.py')).read()) if os.path.exists(os.path.join(R, 'lib', 'more_props.py')) else None
CLAIMED = [p['id'] for p in P]
for n in NA:
    prop(*n[:-1])
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
TECH = 'bounded symbolic execution of the compiled crate (LLVM IR of /repo and its dependencies) with z3 deciding every branch and assertion over all inputs within the bounds; counterexamples and sampled paths replayed natively'
NOTE = 'The solver decides every path over all values of the symbolic bytes within the bounds stated in the evidence; the paths explored are shown to cover all inputs of each instance. Outside the bounds nothing is claimed; the models of allocation, files and threads in the engine are trusted and checked against native runs of sampled paths.'
M = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='cfg(obsidian_verif)', enable="RUSTFLAGS='--cfg obsidian_verif' (set by build_ir.sh and build_replay.sh)", source_commits=['333e587']),
         checks=[dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, technique=TECH, level='model_checking', level_note=NOTE) for i in CLAIMED],
         not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA],
         notes='check.py builds /repo with the harnesses (harness/) to LLVM IR, runs engine/ (a symbolic executor written for this task, z3 as solver) on it, and replays natively (replay/). See DESIGN.md.')
json.dump(M, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
