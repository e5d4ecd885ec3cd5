from props_h import P, D, DOM, W, S
WHY = "The server's tests make one or two calls each; what matters is what a call does after any sequence of others, and what clients show after any history of changes."
NOTE = "Exhaustive within the stated bounds; the real server, diff, patch application and browser client run on every case. facet (the byte encoding), html5ever and the browser DOM are stand-ins."
def Q(id, title, statement, **kw):
    kw.setdefault("why", WHY)
    kw.setdefault("note", NOTE)
    kw.setdefault("files", [S])
    return P(id, title, statement, **kw)

PROPS = [
Q("S01", "The live-reload server answers by what it has cached for the route",
  "After any sequence of calls, a change of a route's HTML yields Reload when nothing is cached for the route, nothing when the body is the same (content and attributes, however written), and otherwise patches that lead from exactly the cached HTML to the new one; changed head injections yield HeadChanged and still update the cache; every call leaves the new HTML cached; removing a route or clearing forgets HTML and head injections, and the return values and the list of routes say so.",
  over=("histories",), q="all sequences of 3 calls over 61 calls, of 4 (thorough 5) over 16 calls and of 4 over 31 calls, on up to two routes",
  tech="explicit-state exploration of all call sequences up to a depth against a reference state machine; the real server executes every sequence and its cache is probed at the end",
  mech=[("cache and diff", S + ":LiveReloadServer::diff_route"), ("head injections", S + ":LiveReloadServer::diff_route_with_head")],
  observe=("hotmeal_server::LiveReloadServer",)),
Q("S02", "Every connected client shows the latest version after every change",
  "Clients that open the page at any time (and reload when told to) and receive every event over the wire show, after each change, the body of the latest version - in the browser and in the Rust implementation - for any history of versions, head changes and forgotten routes.",
  over=("histories", "schedules"), q="all histories of up to 4 (thorough 5) versions with clients joining, head changes and forgotten routes at any step", files=[S, D, DOM, W],
  tech="explicit-state enumeration of all histories of versions, joins, head changes and removals up to a length; server, wire, browser client and Rust page run together and every client is judged after every step",
  mech=[("events", S + ":LiveReloadServer::diff_route_with_head"), ("applying", W + ":apply_patches_postcard")],
  observe=("hotmeal_server::LiveReloadServer::diff_route", "hotmeal_wasm::apply_patches_postcard", "hotmeal::Document::apply_patches")),
Q("S03", "What happens on one route never shows on another",
  "For any two routes, however similar their names, and any interleaving of calls on them, each call gets the answer it would get if the other route were not there, and an event names its own route.",
  over=("histories", "schedules"), q="all interleavings of two sequences of 2 calls over 18 calls and of 3 (thorough 4) over 4 calls, for five pairs of route names",
  tech="explicit-state exploration of all interleavings of call sequences on two routes; the real server executes each and every answer is compared with the route's answers alone",
  mech=[("caches by route", S + ":LiveReloadServer")], observe=("hotmeal_server::LiveReloadServer",)),
Q("S04", "The loader goes right behind the head tag and changes nothing else",
  "Injecting content into a page inserts it directly behind the first head tag (in any case, with or without attributes, but not a header or another element whose name starts alike) or in front of everything when there is none, leaving every other byte as it is; a page with the loader script injected parses to the same page with that script first in its head, naming the given URLs and selector.",
  over=("inputs",), q="all texts of up to 4 (thorough 5) pieces over 14 head-like tags; every base document with three loaders",
  tech="explicit-state enumeration of all texts over an alphabet of head-like tags up to a length and of all base documents; the real functions run on each and are compared with a byte-level reference",
  mech=[("injection", S + ":inject_into_head"), ("loader", S + ":loader_script")], observe=("hotmeal_server::inject_into_head", "hotmeal_server::loader_script"),
  why="The tests inject into one page with and one without a head; which tag counts as the head depends on everything around it.",
  note=NOTE + " A head tag inside a comment counts (the search is textual), and head attributes that contain > are outside."),
Q("S05", "Events arrive over the wire as they were sent",
  "Every live-reload event, whatever its route and patch bytes, is decoded from its encoding as an equal event.",
  over=("inputs",), q="every kind of event over routes with special characters and all byte strings of up to 4 (thorough 6) bytes over 6 values, and sizes around the length limits",
  tech="explicit-state enumeration of all events over boundary routes and byte strings up to a length; the real encoding entry points run on each",
  mech=[("encoding", S + ":LiveReloadEvent::to_postcard")], observe=("hotmeal_server::LiveReloadEvent",),
  why="A round trip of one event is tested; lengths and characters at the encoding's boundaries are not.",
  note="Exhaustive within the stated bounds, but the byte encoding itself is the stand-in's: what is checked is that hotmeal-server hands every part over and back."),
Q("S06", "The loader script hands over exactly the URLs and the selector it was given",
  "For any module URL, binary URL, mount selector and socket URL - with quotes, backslashes, line breaks, tags or anything else in them - the generated loader is one module script that imports the client from exactly the given module URL, initialises it with exactly the given binary URL and starts it with exactly the given socket URL and selector.",
  over=("inputs",), q="all strings of up to 3 (thorough 4) pieces over 32 pieces in each of the four places, every combination of four pieces, and ordinary selectors",
  tech="explicit-state enumeration of all argument strings over an alphabet of critical pieces up to a length; the real function runs on each, the page is parsed and the script is read back token by token",
  mech=[("loader", S + ":loader_script")], observe=("hotmeal_server::loader_script",),
  why="The tests generate one loader with four plain arguments; quoting is decided by the characters inside.",
  note="Exhaustive within the stated bounds. JavaScript is read by a small tokeniser of the harness, HTML by the stand-in parser."),
P("L01", "The browser client reconnects, subscribes and applies every event, always",
  "Under every schedule of its tasks, network and server the live-reload client has one connection attempt or session at a time; subscribes once per session, to the page's current path; applies every event in order exactly once to the mount point (reloading when told to) and survives events it cannot apply; and after every failure or end it tries again after a wait that doubles from 100 ms to at most 5 s and starts over after an established session. It never gets stuck.",
  over=("schedules", "histories"), q="all schedules of up to 15 (thorough 18) steps with every event, failure and navigation, of up to 20 (27) steps with connections and patches, and of up to 38 (46) steps with failures",
  files=[W, S], mech=[("reconnecting", W + ":live_reload_loop"), ("session", W + ":live_reload_session"), ("events", W + ":handle_live_reload_event")],
  tech="stateless model checking of the real client code under a controlled executor and network: every order of task steps, connection outcomes, messages, timers and navigation up to a depth, monitored after every step",
  observe=("hotmeal_wasm::start_live_reload",),
  why="The client is compiled only for browsers and has no tests; its behaviour depends on the order in which connections, answers, events and failures arrive.",
  note="Exhaustive over all schedules within the stated depths. The client's own code runs (compiled natively through a guarded hook); roam, the WebSocket, timers and the browser are stand-ins whose every outcome is a choice. Events are only sent on sessions whose subscription did not fail. Events missed while disconnected are the server application's concern and not covered."),
]
