"""C24: definitions that a header cannot describe, with the offending part at every place, and their permitted
neighbours are generated and compiled with the real derive; skipped parts at every place must leave no trace."""
import itertools, json, os, shutil, subprocess
from . import common, derive, derive_gen as g

# ------------------------------------------------------------------ what must be refused

COND = ['#[serde(skip_serializing_if = "Option::is_none")] ', '#[serde(default, skip_serializing_if = "f")] ', '#[serde(skip_serializing_if = "f", default)] ',
        '#[serde(rename = "x", skip_serializing_if = "f", default)] ', '#[serde(default)] #[serde(skip_serializing_if = "f")] ', '#[serde(skip_serializing_if = "f")] #[serde(default)] ',
        '#[doc = "text"] #[serde(skip_serializing_if = "f")] ', '#[cfg_attr(all(), serde(skip_serializing_if = "f"))] ', '#[allow(dead_code)] #[serde(skip_serializing_if = "f")] ',
        '#[serde(skip_deserializing, skip_serializing_if = "f")] ', '#[serde(rename(serialize = "y"))] #[serde(alias = "z", skip_serializing_if = "f")] ', '#[serde(skip_serializing_if = "f",)] ', '#[serde()] #[serde(skip_serializing_if = "f")] ']
FLAT = ["#[serde(flatten)] ", "#[serde(default, flatten)] ", "#[serde(flatten, default)] ", "#[serde(default)] #[serde(flatten)] ", '#[doc = "text"] #[serde(flatten)] ',
        "#[cfg_attr(all(), serde(flatten))] ", "#[serde(flatten)] #[serde(default)] ", "#[serde(skip_deserializing, flatten)] ", "#[serde(flatten,)] "]
UNTAG = ["#[serde(untagged)] ", '#[serde(rename_all = "camelCase", untagged)] ', '#[serde(untagged, rename_all = "camelCase")] ', '#[serde(rename_all = "camelCase")] #[serde(untagged)] ',
         '#[doc = "text"] #[serde(untagged)] ', "#[cfg_attr(all(), serde(untagged))] ", "#[allow(dead_code)] #[serde(untagged)] ", "#[serde(untagged)] #[serde(deny_unknown_fields)] "]
TAG = ['#[serde(tag = "t")] ', '#[serde(rename_all = "camelCase", tag = "t")] ', '#[serde(tag = "content")] ', '#[serde(tag = "t", rename_all = "camelCase")] ', '#[serde(deny_unknown_fields)] #[serde(tag = "t")] ',
       '#[doc = "content"] #[serde(tag = "t")] ', '#[cfg_attr(all(), serde(tag = "t"))] ', '#[serde(tag = "t")] #[serde(rename = "content")] ']
OTHER = ["", "#[serde(skip)] ", '#[serde(rename = "q")] ']
TY = ["u8", "Option<u16>", "String", "Vec<u8>"]


# other items, of fields and variants, and of whole definitions
FILL = ['rename = "x"', "default", 'alias = "y"', 'alias = "z"', 'bound = ""', 'deserialize_with = "g"']
CFILL = ['rename_all = "camelCase"', 'rename = "x"', "deny_unknown_fields", 'bound = ""', 'expecting = "it"']


def attribute(items, cut):
    """the items in one attribute (cut 0), in two cut there, or (cut at the last) in one each"""
    if cut == len(items) - 1:
        return "".join("#[serde(%s)] " % i for i in items)
    parts = [items] if cut == 0 else [items[:cut], items[cut:]]
    return "".join("#[serde(%s)] " % ", ".join(p) for p in parts)


def fields(style, n, at, attr, others=""):
    l = []
    for i in range(n):
        a = attr if i == at else others
        l.append("%s%s%s" % (a, "f%d: " % i if style == "named" else "", TY[(i + n) % 4]))
    return ("{ %s }" if style == "named" else "(%s)") % ", ".join(l)


def refused(tier):
    """(what is wrong, definition with the name NAME)"""
    th = tier == "thorough"
    out = []
    for style in ("named", "tuple"):
        for n in range(1, 6 if th else 5):
            for at in range(n):
                for a in COND + (FLAT if style == "named" else []):
                    for o in OTHER if n > 1 else [""]:
                        out.append(("field attribute", "struct NAME %s%s" % (fields(style, n, at, a, o), "" if style == "named" else ";")))
    out.append(("field attribute", "pub(crate) struct NAME { pub a: u8, %spub b: u8 }" % COND[0]))
    # at every place among other items of an attribute, and among other attributes
    for want in ('skip_serializing_if = "f"', "flatten"):
        for others in (FILL, FILL[::-1]):
            for n in range(1, 7):
                for at in range(n + 1):
                    items = list(others[:n])
                    items.insert(at, want)
                    for cut in range(len(items)):   # one attribute, or two cut here, or one each
                        text = attribute(items, cut)
                        out.append(("place in an attribute", "struct NAME { a: u8, %sb: Option<u8> }" % text))
                        out.append(("place in an attribute", "enum NAME { A, B { %sb: Option<u8>, c: u8 } }" % text))
                        if want != "flatten":
                            out.append(("place in an attribute", "struct NAME(%sOption<u8>, u8);" % text))
                            out.append(("place in an attribute", "enum NAME { A(u8, %sOption<u8>), B }" % text))
    for want, ds in (("untagged", ("enum NAME { A, B(u8) }",)), ('tag = "t"', ("enum NAME { A, B { x: u8 } }", "struct NAME { a: u8 }"))):
        for others in (CFILL, CFILL[::-1]):
            for n in range(1, 6):
                for at in range(n + 1):
                    items = list(others[:n])
                    items.insert(at, want)
                    for cut in range(len(items)):
                        for d in ds:
                            out.append(("place in an attribute", attribute(items, cut) + d))
    # two at once
    for a, b in itertools.product(COND[:6] + FLAT[:4], repeat=2):
        out.append(("two attributes", "struct NAME { %sa: Option<u8>, b: u8, %sc: Option<u8> }" % (a, b)))
    # enum variants
    for total in range(1, 5 if th else 4):
        for v in range(total):
            for style in ("named", "tuple"):
                for n in (1, 2, 3):
                    for at in range(n):
                        for a in COND + (FLAT if style == "named" else []):
                            for fill in ("A%d", "A%d(u8)", "A%d { x: u8 }", "#[serde(rename = \"r%d\")] A"):
                                if not th and fill != "A%d" and (n == 3 or a in COND[6:] + FLAT[5:]):
                                    continue
                                vs = [(fill % i) + (str(i) if fill.endswith("A") else "") for i in range(total)]
                                vs[v] = "B" + fields(style, n, at, a)
                                out.append(("field of a variant", "enum NAME { %s }" % ", ".join(vs)))
            for a in COND[:4]:
                for s in ("B", "B(u8)", "B(u8, u16)", "B { x: u8 }", "B {}"):
                    vs = ["A%d(u8)" % i for i in range(total)]
                    vs[v] = a + s
                    out.append(("variant attribute", "enum NAME { %s }" % ", ".join(vs)))
            for a in UNTAG:
                if "rename_all" in a or "deny" in a:
                    continue
                for s in ("B", "B(u8)", "B(u8, u16)", "B { x: u8 }", "B {}", "B()"):
                    vs = ["A%d" % i for i in range(total)]
                    vs[v] = a + s
                    out.append(("variant attribute", "enum NAME { %s }" % ", ".join(vs)))
    # whole definitions
    for a in UNTAG:
        for s in ("A", "A, B", "A(u8), B", "A { x: u8 }", "A(u8, u16), B { y: u8 }, C", "#[serde(skip)] A(u8), B"):
            out.append(("untagged", a + "enum NAME { %s }" % s))
    for a in TAG:
        for s in ("A", "A, B", "A(Inner), B", "A { x: u8 }", "A { x: u8, y: u16 }, B { content: u8 }, C", "#[serde(skip)] A(u8), B", '#[serde(rename = "content")] A'):
            out.append(("tag without content", a + "enum NAME { %s }" % s))
        for s in ("{ a: u8 }", "{ content: u8, b: u16 }", "{ #[serde(skip)] a: u8, b: String }", '{ #[serde(rename = "content")] a: u8 }', "{}"):
            out.append(("tag without content", a + "struct NAME " + s))
    for a in ("", "#[repr(C)] ", "pub ", "#[allow(dead_code)] "):
        for s in ("{ a: u8 }", "{ a: u8, b: u16 }", "{ #[serde(skip)] a: u8, b: u16 }", "{ a: () }", "{ #[serde(skip)] a: u8 }"):
            out.append(("union", a + "union NAME " + s))
    return out


def too_many():
    return [("count", "enum NAME { %s }" % ",".join("V%d" % i for i in range(65536))), ("count", "struct NAME(%s);" % ",".join(["u8"] * 65536)),
            ("count", "enum NAME { A, B(%s) }" % ",".join(["u8"] * 65537)), ("count", "struct NAME { %s }" % ",".join("f%d:u8" % i for i in range(70000)))]


# ------------------------------------------------------------------ what must compile

def permitted(tier):
    th = tier == "thorough"
    out = []
    W = ["skip_serializing_if", "flatten", "untagged", "tag", "content", "skip", "serde"]
    near = ['#[serde(rename = "%s")] ', '#[serde(rename(serialize = "%s"))] ', '#[doc = "%s"] ', '#[serde(alias = "%s")] ', '#[doc = "#[serde(%s)]"] ', "#[cfg_attr(any(), serde(%s))] "]
    for w in W:
        for a in near:
            for n in (1, 2, 3):
                for at in range(n):
                    out.append(("near miss", "struct NAME " + fields("named", n, at, a % w)))
                    out.append(("near miss", "struct NAME " + fields("tuple", n, at, a % w) + ";"))
                    out.append(("near miss", "enum NAME { A, B%s }" % fields("named", n, at, a % w)))
                    out.append(("near miss", "enum NAME { B%s, C }" % fields("tuple", n, at, a % w)))
            out.append(("near miss", "enum NAME { A, %sB(u8), C }" % (a % w)))
            if "alias" not in a:
                out.append(("near miss", (a % w) + "enum NAME { A, B(u8) }"))
                out.append(("near miss", (a % w) + "struct NAME { a: u8 }"))
        out.append(("near miss", "struct NAME { %s: u8, other: u16 }" % w))
        out.append(("near miss", "#[allow(non_camel_case_types)] enum NAME { %s, other { %s: u8 } }" % (w, w)))
    for a in ('#[serde(tag = "t", content = "c")] ', '#[serde(content = "c", tag = "t")] ', '#[serde(tag = "t")] #[serde(content = "c")] ', '#[serde(content = "c")] #[serde(tag = "t")] ',
              '#[serde(rename_all = "camelCase", tag = "t", content = "c")] ', '#[cfg_attr(all(), serde(tag = "t", content = "c"))] ', '#[serde(tag = "untagged", content = "flatten")] '):
        for s in ("A(u8)", "A(u8), B(u8, u16)", "A, B", "A { x: u8 }, B"):
            out.append(("tag with content", a + "enum NAME { %s }" % s))
    for s in ("struct NAME;", "struct NAME {}", "struct NAME();", "enum NAME {}", "pub struct NAME(pub u8);", "pub(crate) struct NAME { pub(crate) a: u8 }", "struct NAME(W);", "struct NAME { w: W }", "enum NAME { A(W), B { w: W } }",
              "enum NAME { W(W), Result(u8), Ok, Err }", "struct NAME { writer: u8, W: u8, header: u8 }", "#[derive(Clone)] struct NAME { a: u8 }", "struct NAME { a: <u8 as Assoc>::A }", "struct NAME((u8));", "struct NAME { a: &'static str }",
              "struct NAME(Alias, Inner, InnerE);", "enum NAME { A = 3, B = 1 }", "#[repr(u8)] enum NAME { A = 3, B(u8) = 1 }", "struct NAME { r#type: u8, r#struct: u8 }", "struct NAME(crate::common::W);",
              "#[non_exhaustive] struct NAME { a: u8 }", "#[deprecated] struct NAME { a: u8 }", "struct NAME { a: Clash }", "enum NAME { r#A(u8), r#B { r#fn: u8 } }", "#[must_use] struct NAME(u8);"):
        out.append(("forms", s))
    for a, written in g.ATTRS:
        for s in ("struct NAME { %sa: u8 }", "struct NAME(u8, %su8);", "enum NAME { A { %sa: u8 } }", "enum NAME { A(u8, %su8), B }", "struct NAME(%su8);", "enum NAME { A(%su8) }"):
            if not ("default" in a and "(" in s.split("%s")[0] and "A {" not in s and "a:" not in s):
                out.append(("skips and others", s % a.replace("/// skip\n", '#[doc = "skip"] ').replace("/// text\n", '#[doc = "text"] ')))
    for a in g.VATTR + g.VSKIP + ["#[serde(other)] "]:
        for s in ("enum NAME { A, %sB }", "enum NAME { %sB, A(u8) }", "enum NAME { A, %sB, C(u8) }", "enum NAME { %sB }") + (("enum NAME { %sB(u8, u16), A }", "enum NAME { A, %sB { x: u8 } }") if "other" not in a else ()):
            if "other" in a:
                if "%sB }" not in s:
                    continue  # serde wants it last
                s = '#[serde(tag = "t", content = "c")] ' + s
            out.append(("skips and others", s % a.replace("/// skip\n", '#[doc = "skip"] ')))
    for n in range(1, 6):
        for cut in range(n):
            text = attribute(FILL[:n], cut)
            out.append(("items without effect", "struct NAME { a: u8, %sb: Option<u8> }" % text))
            out.append(("items without effect", "enum NAME { A, B { %sb: Option<u8>, c: u8 } }" % text))
            text = attribute(CFILL[:n], cut)
            out.append(("items without effect", text + "struct NAME { a: u8 }"))
            out.append(("items without effect", text + "enum NAME { A, B { x: u8 } }"))
    return out + surroundings(th)


def surroundings(th):
    """definitions among other items whose names an expansion might use: every name as every kind of item"""
    out = []
    names = ["Ok", "Err", "Some", "None", "Result", "Option", "Vec", "String", "Box", "Write", "writer", "W", "u8", "u32", "usize", "std", "core", "alloc", "io", "header", "ser", "serde", "Clone", "Into", "From",
             "TUPLE_CODE", "ENUM_CODE", "write_all", "serialize_header", "SerializeHeader", "buf", "T", "vec", "size", "field", "result", "value", "drop"]
    kinds = ["pub struct N;", "pub struct N(pub bool);", "pub struct N {}", "pub enum N {}", "pub trait N {}", "pub mod N {}", "pub type N = bool;", "pub const N: bool = true;", "pub static N: bool = true;", "pub fn N() {}",
             "#[allow(unused_macros)] macro_rules! N { () => {}; ($($t:tt)*) => { compile_error!() } }", "pub enum Q { N } pub use self::Q::*;", "pub enum Q { N(bool) } pub use self::Q::*;",
             "pub trait Q { fn N(&mut self, _: bool) {} } impl<X: ?Sized> Q for X {}", "pub trait Q { fn N() {} } impl<X: ?Sized> Q for X {}"]
    defs = ["pub struct D { a: u16, b: i32 }", "pub enum D { A(u16), B { x: u16, y: i32 }, C(u16, i32), E }"] + (["pub struct D;", "pub struct D(i32);", "pub enum D {}"] if th else [])
    for n in names:
        for k in kinds:
            for d in defs:
                out.append(("surroundings", "mod NAME { %s DERIVE %s }" % (k.replace("N", n), d)))
    for n in names:   # the definition itself, its parts and the types of its parts have the name
        for d in ("pub struct N { a: u16 }", "pub struct N;", "pub struct N(i32, u16);", "pub enum N { N, A(u16) }", "pub enum D { A, N(u16, i32) } pub use self::D::*;", "pub struct D { N: u16, b: i32 }", "pub enum D { A { N: u16, b: i32 } }"):
            if not (n in ("u8", "u32") and "fn" in d):
                out.append(("surroundings", "mod NAME { DERIVE %s }" % d.replace("N", n)))
        out.append(("surroundings", "mod NAME { DERIVE pub struct N(u16, i32); DERIVE pub struct D { N: N, b: N } DERIVE pub enum E { N(N, N), A { x: N, y: N } } }".replace("NAME", "@").replace("N", n).replace("@", "NAME").replace("DERIVE".replace("N", n), "DERIVE")))
    return out


# ------------------------------------------------------------------ headers without a trace

def no_trace(tier):
    """skipped fields and variants at every place, header only: also the variants serde counts all the same"""
    th = tier == "thorough"
    out = []
    sh = g.shapes()
    kinds = [None, "#[serde(skip)] ", "#[serde(skip_serializing)] ", "#[serde(skip_serializing, skip_deserializing)] "] + (g.VSKIP[3:] if th else [])
    for n in (1, 2, 3, 4, 5) if th else (1, 2, 3, 4):
        for combo in itertools.product(kinds if n < 4 else kinds[:2], repeat=n):
            for rot in range(0, len(sh), 2 if th else 5):
                kept, vs = [], []
                for i, a in enumerate(combo):
                    v = sh[(rot + i * 4 + n) % len(sh)]((rot + i) % 10)
                    if a:
                        v.attr, v.written = a, False
                    else:
                        kept.append(v)
                    vs.append(v)
                header = bytes([24]) + g.varint(len(kept), 16) + b"".join(v.header() for v in kept)
                src = "enum NAME { %s }" % ", ".join(v.attr + "V%d " % i + g.body_src(v.style, v.fields) for i, v in enumerate(vs))
                out.append(g.Def("no trace", src, src, header, []))
    for want in ("skip", "skip_serializing"):
        for n in range(1, 7):
            for at in range(n + 1):
                items = list(FILL[:n])
                items.insert(at, want)
                for cut in range(len(items)):
                    text = attribute(items, cut)
                    d = g.struct_def("no trace", "named", [g.Field(g.U8), g.Field(g.OPAQUE, (text, False)), g.Field(g.STR)], ks=())
                    d.values = []
                    out.append(d)
                    v = sh[(n + at) % len(sh)](at)
                    u = g.Variant("unit")
                    text = attribute([i for i in items if i not in ("default", 'deserialize_with = "g"')], min(cut, 1))
                    src = "enum NAME { A, %sB%s }" % (text, g.body_src(v.style, v.fields))
                    out.append(g.Def("no trace", src, src, bytes([24, 1]) + u.header(), []))
    for style in ("named", "tuple"):
        for n in range(2, 7 if th else 6):
            for bits in itertools.product((0, 1), repeat=n):
                fs = [g.Field(g.OPAQUE if b else g.ROT[i], (g.SKIPPED[(i + n) % len(g.SKIPPED)], False) if b else ("", True)) for i, b in enumerate(bits)]
                d = g.struct_def("no trace", style, fs, ks=())
                d.values = []
                out.append(d)
                w = g.Variant(style, fs)
                src = "enum NAME { A, B %s }" % g.body_src(style, fs)
                out.append(g.Def("no trace", src, src, bytes([24, 2, 0]) + w.header(), []))
    return out


# ------------------------------------------------------------------ compiling

def crate(name, files, bins):
    d = os.path.join(common.BUILD, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src", "bin", "common"))
    with open(os.path.join(d, "src", "bin", "common", "mod.rs"), "w") as f:
        f.write(COMMON)
    for n, text in files.items():
        with open(os.path.join(d, "src", "bin", n + ".rs"), "w") as f:
            f.write(text)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "rejectgen"\nversion = "0.1.0"\nedition = "2021"\nautobins = false\n[workspace]\n[dependencies]\n'
                'dlhn = { path = "%s/dlhn" }\nserde = { version = "1.0.130", features = ["derive"] }\n[profile.dev]\ndebug = 0\nincremental = false\n' % common.REPO)
        for b in bins:
            f.write('[[bin]]\nname = "%s"\npath = "src/bin/%s.rs"\n' % (b, b))
    with open(os.path.join(common.VERIF, "checker", "Cargo.lock")) as f:
        lock = f.read()
    with open(os.path.join(d, "Cargo.lock"), "w") as f:
        f.write(lock.replace('name = "checker"', 'name = "rejectgen"'))
    return d


COMMON = r'''
#[derive(serde::Serialize, dlhn::SerializeHeader)]
pub struct Inner { pub a: u8, pub b: String }
#[derive(serde::Serialize, dlhn::SerializeHeader)]
pub enum InnerE { A, B(u16), C { x: u8 } }
#[derive(serde::Serialize, dlhn::SerializeHeader)]
pub struct W(pub u8);
#[derive(serde::Serialize, dlhn::SerializeHeader)]
pub struct Clash { pub a: u8 }
impl Clash { pub fn serialize_header(_: ()) {} }
pub type Alias = Vec<String>;
pub trait Assoc { type A; }
impl Assoc for u8 { type A = u16; }
pub fn f<T>(_: &T) -> bool { false }
pub fn skip<T: Default>() -> T { T::default() }
'''
HEAD = "#![allow(dead_code, unused_parens, unused_imports, non_camel_case_types, non_snake_case, non_upper_case_globals, deprecated)] mod common; use common::*; fn main() {}\n"


def compile_lines(d, name, defs, derives, target):
    """line -> its error messages; also whether everything compiled"""
    with open(os.path.join(d, "src", "bin", name + ".rs"), "w") as f:
        f.write(HEAD)
        for i, (_, s) in enumerate(defs):
            assert "\n" not in s, s
            if "DERIVE" in s:   # the header derive alone, at each place, or none at all
                line = s.replace("DERIVE", "#[derive(dlhn::SerializeHeader)]" if "SerializeHeader" in derives else "").replace("NAME", "d%d" % i)
            else:
                line = "#[derive(%s)] %s" % (derives, s.replace("NAME", "D%d" % i))
            f.write(line + "\n")
    cmd = ["cargo", "check", "--offline", "-q", "--bin", name, "--message-format=json"]
    p = subprocess.run(cmd, cwd=d, env=common.env({"CARGO_TARGET_DIR": target}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    errs, other = {}, []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        if m.get("target", {}).get("name") != name:
            other.append(m["message"]["message"])
            continue
        lines = set()
        for sp in m["message"]["spans"]:
            while sp:
                if sp["file_name"].endswith(name + ".rs"):
                    lines.add(sp["line_start"])
                sp = (sp.get("expansion") or {}).get("span")
        for l in lines:
            errs.setdefault(l - 2, []).append(m["message"]["message"])
        if not lines and not m["message"]["message"].startswith("aborting"):
            other.append(m["message"]["message"])
    return errs, other, p.returncode, p.stderr


def alone(d, name, definition, derives, target):
    errs, other, rc, err = compile_lines(d, name, [definition], derives, target)
    return rc == 0, errs, err


def space(name, what, n, samples):
    return {"name": name, "what": what, "build": "rustc", "executions": n, "states": n, "transitions": n, "validated": n, "repeated": 0, "capped": False, "samples": samples[:3]}


def run(prop, tier):
    target = os.path.join(common.BUILD, "reject")
    bad, good, many = refused(tier), permitted(tier), too_many()
    bad = list(dict.fromkeys(bad))
    good = list(dict.fromkeys(good))
    d = crate("rejectgen-" + tier, {n: HEAD for n in ("refused", "permitted", "many", "single")}, ("refused", "permitted", "many", "single"))
    common.cargo(d, ["--bin", "single"], target, sub="check", timeout=300)
    violations, spaces = [], []

    def violation(space, definition, msg, name, derives):
        violations.append({"space": space, "case": [], "label": definition[:600], "msg": msg,
                           "command": "compile with the derive: " + (definition.replace("DERIVE", "#[derive(dlhn::SerializeHeader)]") if "DERIVE" in definition else "#[derive(%s)] %s" % (derives, definition))[:400]})

    for name, l in (("refused", bad), ("many", many)):
        errs, other, rc, err = compile_lines(d, name, l, "dlhn::SerializeHeader", target)
        if rc != 0 and not errs:
            raise common.CheckError("compilation failed: %s %s" % (other[:3], err[-2000:]))
        missing = [x for i, x in enumerate(l) if i not in errs]
        for what, s in missing[:5]:
            ok, e1, e2 = alone(d, "single", (what, s), "dlhn::SerializeHeader", target)
            if ok:
                violation(name + ": " + what, s, "the derive accepts a definition that a header cannot describe (%s): %s" % (what, s[:300]), name, "dlhn::SerializeHeader")
        kinds = sorted({w for w, _ in l})
        for k in kinds:
            ss = [s for w, s in l if w == k]
            spaces.append(space(("%s: %s" % (name, k)), "definitions to be refused: %s" % k, len(ss), [s[:200] for s in ss[len(ss) // 2:]]))
    derives = "serde::Serialize, dlhn::SerializeHeader"
    errs, other, rc, err = compile_lines(d, "permitted", good, derives, target)
    if rc != 0:
        if not errs:
            raise common.CheckError("compilation failed: %s %s" % (other[:3], err[-2000:]))
        control, _, rc2, err2 = compile_lines(d, "permitted", good, "serde::Serialize", target)
        if rc2 != 0:
            raise common.CheckError("without the header derive: %s" % err2[-2000:] + str(list(control.items())[:3]) + str([good[i] for i in list(control)[:3]]))
        for i in sorted(errs)[:3]:
            if 0 <= i < len(good):
                violation("permitted: " + good[i][0], good[i][1], "a definition that a header can describe is refused: %s (%s)" % (good[i][1][:300], errs[i][0][:300]), "permitted", derives)
    for k in sorted({w for w, _ in good}):
        ss = [s for w, s in good if w == k]
        spaces.append(space("permitted: " + k, "definitions to be accepted: %s" % k, len(ss), [s[:200] for s in ss[len(ss) // 2:]]))
    if not violations:
        s, v = traces(prop, tier)
        spaces += s
        violations += v
    return {"spaces": spaces, "violations": violations, "assumptions": ["rustc reports an error at the definition it belongs to", "compiled for one rustc (stable)"],
            "bounds": "%d definitions to be refused, %d to be accepted" % (len(bad) + len(many), len(good))}


def traces(prop, tier):
    defs = no_trace(tier)
    shards = [defs[i::8] for i in range(8)]
    d, n = derive.write_crate("tracegen-" + tier, shards, serde=False)
    target = os.path.join(common.BUILD, "derive")
    p = common.cargo(d, ["--bins"], target, timeout=600, ok_to_fail=True)
    if p.returncode != 0:
        control = os.path.join(common.BUILD, "derive-control")
        q = common.cargo(d, ["--bins"], control, {"RUSTFLAGS": "--cfg without_header"}, timeout=600, ok_to_fail=True, sub="check")
        if q.returncode != 0:
            raise common.CheckError("build failed: %s" % q.stderr[-4000:])
        err = p.stderr[p.stderr.find("error"):]
        return [], [{"space": "no trace", "case": [], "label": "", "command": "cd %s && cargo build --offline --bins" % d, "msg": "a definition with skipped parts does not compile with the derive: " + " ".join(err.split())[:1200]}]
    spaces, violations = [], []

    def one(k):
        return common.Explorer(os.path.join(target, "debug", "t%d" % k), prop, tier, "shard %d" % k, 300, threads=1).explore()
    for s, v in common.parallel([lambda k=k: one(k) for k in range(n)]):
        spaces += s
        violations += v
    violations.sort(key=lambda v: len(v["msg"]))
    return spaces, violations


def known(key):
    raise common.CheckError("no known findings here")
