exec(open("/verif/tools/seeds_h.py").read().split("SEEDS = {")[0])
SEEDS = {
"l01-route-once": dict(property="L01", needs="the user goes to another page of the application, then the connection is lost and made again",
  breaks="after reconnecting the client subscribes for the page it was started on, not for the one that is shown",
  edits=[(W, """        let mut backoff_ms: u32 = 100;
""", """        // The browser route to subscribe for
        let route = web_sys::window()
            .and_then(|w| w.location().pathname().ok())
            .unwrap_or_else(|| "/".to_owned());
        let mut backoff_ms: u32 = 100;
"""), (W, "live_reload_session(ws_url, mount_selector).await", "live_reload_session(ws_url, mount_selector, &route).await"),
  (W, """        mount_selector: &str,
    ) -> Result<(), Box<dyn std::error::Error>> {""", """        mount_selector: &str,
        route: &str,
    ) -> Result<(), Box<dyn std::error::Error>> {"""),
  (W, """        // Subscribe for the current browser route
        let route = web_sys::window()
            .and_then(|w| w.location().pathname().ok())
            .unwrap_or_else(|| "/".to_owned());

        log(&format!("[hotmeal-wasm] subscribing to route: {route}"));
        client.subscribe(route).await?;""", """        log(&format!("[hotmeal-wasm] subscribing to route: {route}"));
        client.subscribe(route.to_owned()).await?;""")],
  demo='''mod h;
use h::*;
use roam::world::{self, Reply, Wait};
use wasm_bindgen_futures as exec;
/// Lets all tasks run, then lets what is waited for and fits happen.
fn go(f: impl Fn(&Wait) -> bool) {
    while let Some(i) = exec::ready().first() {
        exec::poll(*i);
    }
    let (id, _) = world::pending().into_iter().find(|(_, w)| f(w)).unwrap_or_else(|| fail(format!("waiting for {:?}", world::pending())));
    world::decide(id, Reply::Ok);
    while let Some(i) = exec::ready().first() {
        exec::poll(*i);
    }
}
fn main() {
    web_sys::navigate("/a");
    load("<p></p>");
    hotmeal_wasm::start_live_reload("ws://h/_lr", "body").unwrap();
    for (session, path) in ["/a", "/a", "/b", "/c"].into_iter().enumerate() {
        web_sys::navigate(path);
        go(|w| matches!(w, Wait::Connect(_)));
        go(|w| matches!(w, Wait::Accept(_)));
        let want = format!("({path:?},)");
        go(|w| matches!(w, Wait::Call(s, m, a) if *s == session && m == "subscribe" && *a == want));
        go(|w| *w == Wait::Driver(session));
        go(|w| matches!(w, Wait::Sleep(_)));
    }
}
'''),
"s03-last-diff-again": dict(property="S03", needs="two routes with equal pages that change to equal pages one right after the other",
  breaks="the event for the second route names the first one",
  edits=[(S, """    head_cache: HashMap<String, String>,
}""", """    head_cache: HashMap<String, String>,
    /// The last diff: old HTML, new HTML, event. Pages that share a template
    /// often change in the same way.
    last_diff: Option<(String, String, LiveReloadEvent)>,
}"""), (S, """            head_cache: HashMap::new(),
        }""", """            head_cache: HashMap::new(),
            last_diff: None,
        }"""), (S, """        let old_tendril = StrTendril::from(old_html.as_str());""", """        if let Some((old, new, event)) = &self.last_diff
            && *old == old_html
            && new == new_html
        {
            self.html_cache
                .insert(route.to_owned(), new_html.to_owned());
            return Some(event.clone());
        }

        let old_tendril = StrTendril::from(old_html.as_str());"""),
  (S, """                Some(LiveReloadEvent::Patches {
                    route: route.to_owned(),
                    patches_blob,
                })
            }""", """                let event = LiveReloadEvent::Patches {
                    route: route.to_owned(),
                    patches_blob,
                };
                self.last_diff = Some((old_html.clone(), new_html.to_owned(), event.clone()));
                Some(event)
            }""")],
  demo='''mod h;
use h::*;
use hotmeal_server::*;
fn main() {
    let mut s = LiveReloadServer::new();
    for r in ["/a", "/b"] {
        s.cache_html(r, "<p>1</p>");
    }
    for html in ["<p>2</p>", "<p>3</p><i></i>", "<p>2</p>"] {
        for r in ["/a", "/b"] {
            match s.diff_route(r, html) {
                Some(LiveReloadEvent::Patches { route, .. }) => same("route", &route, r),
                e => fail(format!("{r}: {e:?}")),
            }
        }
    }
}
'''),
"h10-reparent-in-front": dict(property="H10", needs="a misnested formatting element around a block that has more than one child when the formatting element is closed",
  breaks="the children of the block change their order",
  edits=[(DOM, """        for child in children {
            child.detach(&mut *arena);
            new_parent.append(child, &mut *arena);
        }""", """        for child in children {
            child.detach(&mut *arena);
            // Keep what the new parent already has behind the children
            match arena[*new_parent].first_child() {
                Some(first) => first.insert_before(child, &mut *arena),
                None => new_parent.append(child, &mut *arena),
            }
        }""")],
  demo='''mod h;
use h::*;
fn main() {
    same("parsed", &inner(&page("<b><p>1<i>2</i>3</b>4</p>")), "<b></b><p><b>1<i>2</i>3</b>4</p>");
}
'''),
"h05-silent-when-emptied": dict(property="H05", needs="an opaque region whose new content is empty",
  breaks="the page does not hear that its opaque region was emptied",
  edits=[(W, """            let el = find_element(root, path, slots)?;
            let detail = js_sys::Object::new();
            js_sys::Reflect::set(
                &detail,
                &JsValue::from_str("content"),""", """            let el = find_element(root, path, slots)?;
            if content.is_empty() {
                // Nothing for a listener to show
                return Ok(());
            }
            let detail = js_sys::Object::new();
            js_sys::Reflect::set(
                &detail,
                &JsValue::from_str("content"),""")],
  demo='''mod h;
use h::*;
fn main() {
    let new = ["<i>1</i>", "<b></b>", "text", "<!--c-->", ""];
    for a in new {
        for b in new.into_iter().filter(|b| *b != a) {
            let [a, b] = [a, b].map(|c| format!("<h1>x</h1><div data-hotmeal-opaque=\\"k\\">{c}</div><p>y</p>"));
            load(&a);
            let before = web_sys::events().len();
            hotmeal_wasm::apply_patches(&patches(&a, &b)).unwrap_or_else(|e| fail(format!("{e:?}")));
            let n = web_sys::events().len() - before;
            if n != 1 {
                fail(format!("{a} to {b}: {n} events"));
            }
        }
    }
}
'''),
"h04-slots-end-with-batch": dict(property="H04", needs="patches that displace a node and are handed to the browser client one at a time",
  breaks="a displaced node is forgotten at the end of every call, so a later patch cannot put it back",
  edits=[(W, """        })?;
    }

    Ok(count)""", """        })?;
    }

    // What is still displaced after the last patch is not coming back
    slots.nodes.clear();

    Ok(count)""")],
  demo='''mod h;
use h::*;
fn main() {
    let (a, b) = ("<p>1</p><ul>2</ul><h1>3</h1>", "<h1>3</h1><ul>2</ul><p>1</p>");
    load(a);
    let mut slots = hotmeal_wasm::Slots::new();
    for p in patches(a, b) {
        hotmeal_wasm::apply_patches_with_slots(&[p], &mut slots).unwrap_or_else(|e| fail(format!("{e:?}")));
    }
    same("one at a time", &html(), b);
    same("at once", &browser(a, b).unwrap(), b);
}
'''),
"h01-placeholder-not-kept": dict(property="H01", needs="a move to a place that an earlier patch of the same edit has left empty",
  breaks="the patch names no slot for the placeholder, so the Rust page keeps it and everything behind it is one place off",
  edits=[(D, """                // Displace occupant to a slot
                occupant.insert_before(node, &mut self.arena);
                let slot""", """                // Displace occupant to a slot
                occupant.insert_before(node, &mut self.arena);
                let data = self.arena[occupant].get();
                if data.kind == HtmlNodeKind::Text && data.text.is_none() {
                    // A placeholder makes room without being kept
                    occupant.detach(&mut self.arena);
                    return None;
                }
                let slot""")],
  demo='''mod h;
use h::*;
fn main() {
    for a in lists() {
        for b in lists() {
            same(&format!("{a} to {b}"), &patched(&a, &b).unwrap_or_else(|e| fail(format!("{a} to {b}: {e}"))), &b);
        }
    }
}
'''+LISTS),
"s06-template-literal": dict(property="S06", needs="a URL or selector that contains a backtick or ${",
  breaks="the loader script evaluates or breaks off the address it was given",
  edits=[(S, """start_live_reload("{ws_url}", "{mount_selector}");""", """start_live_reload(`{ws_url}`, "{mount_selector}");""")],
  demo='''mod h;
use h::*;
fn main() {
    // No template literal may contain these unescaped
    for url in ["ws://h/`", "ws://h/${x}"] {
        let s = hotmeal_server::loader_script("/a.js", "/a.wasm", "body", url);
        let at = s.find(url).unwrap_or_else(|| fail(s.clone()));
        if s[..at].contains('`') {
            fail(s);
        }
    }
}
'''),
}
for s in SEEDS.values():
    s["kit"] = "demo_h"
