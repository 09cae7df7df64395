"""Programs that safe Rust must refuse: each keeps a reference and uses it after
the collection changed or died (with the feature `control`: before)."""
import os
PRE = """#![allow(unused)]
use certified_vars::collections::group::builder::GroupBuilder;
use certified_vars::collections::group::Group;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};

fn map() -> Map<String, String> {
    (0..6).map(|i| (format!("key {}", i), format!("value {}", i))).collect()
}
fn tree() -> RbTree<String, String> {
    let mut t = RbTree::new();
    for i in 0..6 {
        t.insert(format!("key {}", i), format!("value {}", i));
    }
    t
}
struct Other(String);
impl AsHashTree for Other {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
fn group() -> Group {
    GroupBuilder::new().insert(["a", "map"], map()).insert(["b"], Other("other".into())).build()
}
fn see<T: std::fmt::Debug>(t: T) {
    std::hint::black_box(format!("{:?}", t));
}
fn k(i: u8) -> String {
    format!("key {}", i)
}

fn main() {
"""
P = {}
def p(name, setup, ref, change, use):
    P[name] = (setup, ref, change, use)
MAP = "let mut m = map();"
TREE = "let mut t = tree();"
INS = 'm.insert(k(9), "x".into()); m.remove("key 1"); m.remove("key 2");'
TINS = 't.delete("key 1"); t.delete("key 2"); t.insert(k(9), "x".into());'
DROP, TDROP = "drop(m);", "drop(t);"
for n, e in dict(
    witness='m.witness("key 1")', keys="m.witness_keys()",
    key_range='m.witness_key_range::<String, String>(&k(1), &k(2))',
    value_range='m.witness_value_range::<String, String>(&k(1), &k(2))',
    prefix='m.witness_keys_with_prefix::<str>("key")',
    full="m.as_hash_tree()", get='m.get("key 1")', iter="m.iter().next()", tree_ref="m.as_tree().get(\"key 1\")",
    iter_rest="{ let mut i = m.iter(); i.next(); Box::new(i.map(|x| x.0.len() + x.1.len()).filter(|x| *x > 0)) as Box<dyn Iterator<Item = usize>> }",
    get_mut='m.get_mut("key 1")',
    or_insert='m.entry(k(1)).or_insert("q".into())',
    or_insert_with='m.entry(k(7)).or_insert_with(|| "q".into())',
    or_default='m.entry(k(7)).or_default()',
    get_with='m.as_tree().get_with(|x| "key 1".cmp(&x[..]))',
).items():
    u = "see(r.collect::<Vec<_>>());" if n == "iter_rest" else "see(r);"
    p("map_%s_over_change" % n, MAP, "let r = %s;" % e, INS, u)
    p("map_%s_over_drop" % n, MAP, "let r = %s;" % e, DROP, u)
    p("map_%s_over_clear" % n, MAP, "let r = %s;" % e, "m.clear();", u)
for n, e in dict(
    witness='t.witness("key 1")', nested='t.nested_witness("key 1", |v| v.as_hash_tree())', keys="t.keys()",
    key_range='t.key_range("key 1", "key 2")', value_range='t.value_range("key 1", "key 2")', prefix='t.keys_with_prefix("key")',
    full="t.as_hash_tree()", get='t.get("key 1")', max='t.max_entry_with_prefix::<str>("key")',
    iter="{ let mut i = RbTreeIterator::new(&t); i.next(); i.next() }",
    modify='t.modify("key 1", |v| v)', modify_max='t.modify_max_with_prefix::<str, _>("key", |k, v| (k, v))',
    modify_max_key='t.modify_max_with_prefix::<str, _>("key", |k, _| k)',
    insert='t.insert(k(1), "x".into()).1', insert_new='t.insert(k(8), "x".into()).1',
    into_mut='match t.entry(k(1)) { Entry::Occupied(e) => e.into_mut(), _ => return }',
    vacant='match t.entry(k(8)) { Entry::Vacant(e) => e.insert("x".into()), _ => return }',
).items():
    p("tree_%s_over_change" % n, TREE, "let r = %s;" % e, TINS, "see(r);")
    p("tree_%s_over_drop" % n, TREE, "let r = %s;" % e, TDROP, "see(r);")
# Two exclusive references to one value.
p("alias_get_mut", MAP, 'let a = m.get_mut("key 1").unwrap();', 'let b = m.get_mut("key 1").unwrap(); b.push(\'y\');', "a.push('x'); see(&a);")
p("alias_modify", TREE, 'let a = t.modify("key 1", |v| v).unwrap();', 'let b = t.modify("key 1", |v| v).unwrap(); b.push(\'y\');', "a.push('x'); see(&a);")
p("alias_modify_max", TREE, 'let a = t.modify_max_with_prefix::<str, _>("key", |_, v| v).unwrap();', 'let b = t.modify_max_with_prefix::<str, _>("key", |_, v| v).unwrap(); b.push(\'y\');', "a.push('x'); see(&a);")
p("alias_entry_into_mut", TREE, 'let a = t.entry(k(1)).or_insert(k(0));', 'let b = t.entry(k(1)).or_insert(k(0)); b.push(\'y\');', "a.push('x'); see(&a);")
p("alias_get_and_get_mut", MAP, 'let a = m.get("key 1").unwrap();', 'let b = m.get_mut("key 1").unwrap(); *b = "a much longer string than before".into();', "see(a);")
p("alias_iter_and_get_mut", MAP, 'let a = m.iter().nth(1).unwrap().1;', 'let b = m.get_mut("key 1").unwrap(); *b = "a much longer string than before".into();', "see(a);")
p("entry_over_change", TREE, "let mut e = t.entry(k(1));", TINS, "see(&e);")
p("entry_over_drop", TREE, "let mut e = t.entry(k(1));", TDROP, "see(&e);")
OCC = "let mut t = tree(); let mut e = match t.entry(k(1)) { Entry::Occupied(e) => e, _ => return };"
p("occupied_get_over_get_mut", OCC, "let r = e.get();", '*e.get_mut() = "a much longer string than before".into();', "see(r);")
p("occupied_get_over_remove", OCC, "let r = e.get();", "see(e.remove());", "see(r);")
p("occupied_get_mut_over_remove", OCC, "let r = e.get_mut();", "see(e.remove_entry());", "see(r);")
p("occupied_get_mut_twice", OCC, "let r = e.get_mut();", "let q = e.get_mut(); q.push('y');", "r.push('x'); see(r);")
p("occupied_get_over_into_mut", OCC, "let r = e.get();", "let q = e.into_mut(); *q = k(5);", "see(r);")
p("occupied_key_over_remove", OCC, "let r = e.key();", "see(e.remove());", "see(r);")
p("vacant_key_over_into_key", "let mut t = tree(); let e = match t.entry(k(8)) { Entry::Vacant(e) => e, _ => return };", "let r = e.key();", "drop(e.into_key());", "see(r);")
p("vacant_key_over_insert", "let mut t = tree(); let e = match t.entry(k(8)) { Entry::Vacant(e) => e, _ => return };", "let r = e.key();", "e.insert(k(1));", "see(r);")
# References that callbacks smuggle out.
p("smuggle_and_modify", TREE + " let mut out: Option<&mut String> = None;",
  "#[cfg(not(feature = \"control\"))] { t.entry(k(1)).and_modify(|v| out = Some(v)); }", TINS, "see(&out);")
p("smuggle_or_insert_with_key", TREE + " let mut out: Option<&String> = None;",
  "#[cfg(not(feature = \"control\"))] { t.entry(k(8)).or_insert_with_key(|key| { out = Some(key); k(1) }); } ", TINS, "see(&out);")
p("smuggle_get_with", TREE + " let out: Cell<Option<&String>> = Cell::new(None);",
  "#[cfg(not(feature = \"control\"))] { t.get_with(|key| { out.set(Some(key)); std::cmp::Ordering::Equal }); }", TINS, "see(out.get());")
p("smuggle_for_each", TREE + " let mut out: Vec<(&String, &String)> = vec![];",
  "#[cfg(not(feature = \"control\"))] { t.for_each(|k, v| out.push((k, v))); }", TINS, "see(&out);")
p("smuggle_modify", TREE + " let mut out: Option<&mut String> = None;",
  't.modify("key 1", |v| out = Some(v));', TINS, "see(&out);")
p("smuggle_modify_max", TREE + " let mut out: Option<(&String, &mut String)> = None;",
  't.modify_max_with_prefix::<str, _>("key", |k, v| out = Some((k, v)));', TINS, "see(&out);")
p("smuggle_nested_witness", TREE + " let mut out: Option<&String> = None;",
  't.nested_witness("key 1", |v| { out = Some(v); v.as_hash_tree() });', TINS, "see(&out);")
p("smuggle_partial", "let mut g = group(); let mut out: Option<&Other> = None;",
  "#[cfg(not(feature = \"control\"))] { let _ = g.witness().partial::<Other, _>(|o| { out = Some(o); o.as_hash_tree() }).build(); }",
  "g.get_mut::<Other>().0 = \"another string\".into();", "see(out.map(|x| &x.0));")
# Trees that borrow from something shorter.
p("nested_witness_of_local", TREE, "",
  "#[cfg(not(feature = \"control\"))] let w = { let s = String::from(\"a local string\"); t.nested_witness(\"key 1\", |_| s.as_hash_tree()) };", "#[cfg(not(feature = \"control\"))] see(w);")
p("partial_of_local", "let g = group();", "",
  "#[cfg(not(feature = \"control\"))] let w = { let s = String::from(\"a local string\"); g.witness().partial::<Other, _>(|_| s.as_hash_tree()).build() };", "#[cfg(not(feature = \"control\"))] see(w);")
p("partial_of_own_local", "let g = group();", "",
  "#[cfg(not(feature = \"control\"))] let w = g.witness().partial::<Other, _>(|o| { let s = format!(\"{}!\", o.0); s.as_hash_tree() }).build();", "#[cfg(not(feature = \"control\"))] see(w);")
G = "let mut g = group();"
GC = 'g.get_mut::<Other>().0 = "quite another string".into(); g.get_mut::<Map<String, String>>().clear();'
for n, e in dict(
    ray="g.witness()", ray_full="g.witness().full::<Map<String, String>>()", full="g.witness().full::<Map<String, String>>().build()",
    partial='g.witness().partial::<Map<String, String>, _>(|m| m.witness("key 1")).build()',
    get="&g.get::<Other>().0", get_map='g.get::<Map<String, String>>().get("key 1")', tree="g.as_hash_tree()", none="g.witness().build()",
).items():
    use = "see(r.build());" if n.startswith("ray") else "see(r);"
    p("group_%s_over_change" % n, G, "let r = %s;" % e, GC, use)
    p("group_%s_over_drop" % n, G, "let r = %s;" % e, "drop(g);", use)
p("group_get_mut_twice", G, "let a = g.get_mut::<Other>();", "let b = g.get_mut::<Other>(); b.0.push('y');", "a.0.push('x'); see(&a.0);")
p("group_get_mut_and_get", G, "let a = g.get::<Other>();", "let b = g.get_mut::<Other>(); b.0 = String::from(\"something much longer\");", "see(&a.0);")
# Sequences and paged collections.
SEQ = "let mut s: Seq<String> = (0..4).map(k).collect();"
SC = "for i in 0..50 { s.append(k(i)); }"
for n, e in dict(iter="s.iter().next()", index="&s[1]", slice="&s[1..3]", vec="s.as_vec()", as_ref="AsRef::<[String]>::as_ref(&s)", borrow="std::borrow::Borrow::<[String]>::borrow(&s)", tree="s.as_hash_tree()").items():
    p("seq_%s_over_append" % n, SEQ, "let r = %s;" % e, SC, "see(r);")
    p("seq_%s_over_clear" % n, SEQ, "let r = %s;" % e, "s.clear();", "see(r);")
    p("seq_%s_over_move" % n, SEQ, "let r = %s;" % e, "drop(Vec::from(s));", "see(r);")
PG = "let mut p: Paged<String, String, 2> = Paged::new(); for i in 0..7 { p.insert(k(i % 2), k(i)); }"
for n, e in dict(get="p.get(&k(1), 0)", witness="p.witness(&k(1), 0)", last="p.witness_last_page_number(&k(1))", full="p.as_hash_tree()").items():
    p("paged_%s_over_insert" % n, PG, "let r = %s;" % e, "for i in 0..9 { p.insert(k(i % 3), k(i)); }", "see(r);")
    p("paged_%s_over_drop" % n, PG, "let r = %s;" % e, "drop(p);", "see(r);")
# Borrowed keys and values.
p("short_lived_value", "let mut m: Map<String, &'static str> = Map::new();", "",
  "#[cfg(not(feature = \"control\"))] { let s = String::from(\"a short-lived string\"); m.insert(k(1), &s); }", "see(&m);")
p("short_lived_leaf", "let mut g = GroupBuilder::new();", "",
  "#[cfg(not(feature = \"control\"))] let g = { let s = String::from(\"a short-lived string\"); g.insert([\"x\"], &s[..]) };", "see(g.insert([\"y\"], 1u8).build().as_hash_tree());")
# Threads.
def th(name, setup, body):
    P[name] = (setup, "", "#[cfg(not(feature = \"control\"))] { %s }" % body, "")
th("send_map_of_rc", "use std::rc::Rc; let r = Rc::new(String::from(\"k\")); let mut m: Map<Rc<String>, u8> = Map::new(); m.insert(r.clone(), 1);",
   "let h = std::thread::spawn(move || { for _ in 0..20 { drop(m.iter().next().unwrap().0.clone()); } }); for _ in 0..20 { drop(r.clone()); } h.join().unwrap();")
SH = "let mut m = map(); for i in 0..6 { *m.get_mut(&k(i)[..]).unwrap() = \"changed\".into(); } "
th("share_map", SH, "std::thread::scope(|s| { s.spawn(|| see(m.root_hash())); s.spawn(|| see(m.witness(\"key 1\"))); });")
th("share_tree", "let mut t = tree(); t.modify(\"key 1\", |v| v.push('x'));", "std::thread::scope(|s| { s.spawn(|| see(t.root_hash())); s.spawn(|| see(t.keys())); });")
th("share_paged", PG, "std::thread::scope(|s| { s.spawn(|| see(p.root_hash())); s.spawn(|| see(p.witness(&k(1), 0))); });")
th("share_group", G + " g.get_mut::<Map<String, String>>().get_mut(\"key 1\").unwrap().push('x');", "std::thread::scope(|s| { s.spawn(|| see(g.root_hash())); s.spawn(|| see(g.as_hash_tree())); });")
th("share_iterator_of_rc", "use std::rc::Rc; let mut m: Map<Rc<String>, u8> = Map::new(); m.insert(Rc::new(k(1)), 1);",
   "let mut i = m.iter(); std::thread::scope(|s| { s.spawn(move || { for (k, _) in i { for _ in 0..20 { drop(k.clone()); } } }); for _ in 0..20 { drop(m.iter().next().unwrap().0.clone()); } });")
th("send_group_of_rc", "use std::rc::Rc; let r = Rc::new(k(1)); let g = GroupBuilder::new().insert([\"a\"], r.clone()).build();",
   "let h = std::thread::spawn(move || { for _ in 0..20 { drop(g.get::<Rc<String>>().clone()); } }); for _ in 0..20 { drop(r.clone()); } h.join().unwrap();")


def text(setup, ref, change, use):
    guarded = "cfg(not" in use
    lines = [l for l in (setup, ref) if l]
    if use and not guarded and change and ref:
        lines.append('#[cfg(feature = "control")]\n    {\n        %s\n    }' % use)
    if change:
        lines.append(change)
    if use and (guarded or not ref):
        lines.append(use)
    elif use:
        lines.append('#[cfg(not(feature = "control"))]\n    {\n        %s\n    }' % use)
    return PRE + "".join("    %s\n" % l for l in lines) + "}\n"


def generate(d):
    """Write the probes below `d`, leaving files that are right untouched."""
    os.makedirs(d, exist_ok=True)
    want = {n + ".rs": text(*x) for n, x in P.items()}
    for f in os.listdir(d):
        if f not in want:
            os.unlink(os.path.join(d, f))
    for f, t in want.items():
        path = os.path.join(d, f)
        if not os.path.exists(path) or open(path).read() != t:
            with open(path, "w") as h:
                h.write(t)
    return sorted(P)


if __name__ == "__main__":
    print(len(generate(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "bin"))))
