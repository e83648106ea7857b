"""Enumerates definitions for the header derive, with what their header and their values' bytes must be.

The expectations come from the format and from what serde writes for a definition (a skipped field is not
written, except the only field of a newtype struct; a variant whose fields are all skipped writes nothing
after its index; the only unskipped field of a tuple variant with several fields is written alone), computed
here without looking at the derive.
"""
import itertools


def varint(v, width):
    maxn = {16: 3, 32: 5, 64: 9}[width]
    for n in range(1, maxn):
        if v < 1 << (7 * n):
            low = 8 - n
            return bytes([(0xFF << (9 - n)) & 0xFF | v & ((1 << low) - 1)]) + (v >> low).to_bytes(n - 1, "little")
    return bytes([(0xFF << (8 - min(maxn - 1, 8))) & 0xFF]) + v.to_bytes(width // 8, "little")


def zz(v):
    return v * 2 if v >= 0 else -v * 2 - 1


def ln(b):
    return varint(len(b), 64) + b


class T:
    """a field type: Rust text, header bytes, k -> (Rust text of the kth value, its bytes)"""

    def __init__(self, rust, header, val, attr=""):
        self.rust, self.header, self.val, self.attr = rust, bytes(header), val, attr


def text(k):
    return ("s%d" % k) * (1 + k % 3) + ("é" if k % 2 else "")


U16, STR = T("u16", [4], lambda k: ("%du16" % (301 * k % 65536), varint(301 * k % 65536, 16))), T("String", [18], lambda k: ('"%s".to_string()' % text(k), ln(text(k).encode())))
U8 = T("u8", [3], lambda k: ("%du8" % (k * 7 % 256), bytes([k * 7 % 256])))


def opt(t):
    return T("Option<%s>" % t.rust, bytes([1]) + t.header, lambda k: ("None", b"\0") if k % 3 == 2 else ("Some(%s)" % t.val(k)[0], b"\1" + t.val(k)[1]))


def vec(t):
    return T("Vec<%s>" % t.rust, bytes([20]) + t.header, lambda k: ("vec![%s]" % ", ".join(t.val(k + i)[0] for i in range(k % 3)), varint(k % 3, 64) + b"".join(t.val(k + i)[1] for i in range(k % 3))))


def mp(t):
    return T("std::collections::BTreeMap<String, %s>" % t.rust, bytes([23]) + t.header,
             lambda k: ("[%s].into_iter().collect()" % ", ".join('("k%d".to_string(), %s)' % (i, t.val(k + i)[0]) for i in range(k % 3)),
                        varint(k % 3, 64) + b"".join(ln(b"k%d" % i) + t.val(k + i)[1] for i in range(k % 3))))


def tup(*ts):
    return T("(%s,)" % ", ".join(t.rust for t in ts), bytes([21]) + varint(len(ts), 16) + b"".join(t.header for t in ts),
             lambda k: ("(%s,)" % ", ".join(t.val(k + i)[0] for i, t in enumerate(ts)), b"".join(t.val(k + i)[1] for i, t in enumerate(ts))))


UNIT = T("()", [0], lambda k: ("()", b""))
BOOL = T("bool", [2], lambda k: (["false", "true"][k % 2], bytes([k % 2])))
U32 = T("u32", [5], lambda k: ("%du32" % (70000 * k), varint(70000 * k, 32)))
U64 = T("u64", [6], lambda k: ("%du64" % (k << 40), varint(k << 40, 64)))
I8 = T("i8", [8], lambda k: ("%di8" % -(k % 128), bytes([-(k % 128) & 0xFF])))
I16 = T("i16", [9], lambda k: ("%di16" % -(200 * k % 32768), varint(zz(-(200 * k % 32768)), 16)))
I32 = T("i32", [10], lambda k: ("%di32" % (-70000 * k), varint(zz(-70000 * k), 32)))
I64 = T("i64", [11], lambda k: ("%di64" % -(k << 40), varint(zz(-(k << 40)), 64)))
import struct
F32 = T("f32", [13], lambda k: ("%d.5f32" % k, struct.pack("<f", k + 0.5)))
F64 = T("f64", [14], lambda k: ("%d.25f64" % k, struct.pack("<d", k + 0.25)))
BIN = T("serde_bytes::ByteBuf", [19], lambda k: ("serde_bytes::ByteBuf::from(vec![%d; %d])" % (k % 256, k % 4), ln(bytes([k % 256]) * (k % 4))))
SREF = T("&'static str", [18], lambda k: ('"%s"' % text(k), ln(text(k).encode())))


def ubytes(v):
    return v.to_bytes((v.bit_length() + 7) // 8, "little")


def sbytes(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return b"" if v == 0 else v.to_bytes(n, "little", signed=True)


def dec(v, s):
    if v == 0:
        return b"\0"
    while v % 10 == 0:
        v, s = v // 10, s - 1
    return ln(sbytes(v)) + varint(zz(s), 64)


NB, NI, ND = "num_bigint::BigUint::from(%du64)", "num_bigint::BigInt::from(%di64)", "bigdecimal::BigDecimal::new(bigdecimal::num_bigint::BigInt::from(%di64), %d)"
TD, TO = "time::Date::from_ordinal_date(%d, %d).unwrap()", "(time::OffsetDateTime::from_unix_timestamp(%d).unwrap() + time::Duration::nanoseconds(%d))"


def ufmt(k):
    return 3 ** (k % 40)


def sfmt(k):
    return -(3 ** (k % 39)) if k % 2 else 5 ** (k % 27) - 1


def dfmt(k):
    return (k - 3) * 10 ** (k % 4), k % 7 - 3


def dt(k):
    return 1990 + k, 1 + k * 37 % 365


def tm(k):
    return (k - 2) * 1000000007, k * 99999989 % 1000000000


def e_date(k):
    y, d = dt(k)
    return varint(zz(y - 2000), 32) + varint(d - 1, 16)


def e_time(k):
    return varint(zz(tm(k)[0]), 64) + varint(tm(k)[1], 32)


LIB = []
for rust, code, val, enc, mod in [
    ("num_bigint::BigUint", 15, lambda k: NB % ufmt(k), lambda k: ln(ubytes(ufmt(k))), "big_uint"),
    ("num_bigint::BigInt", 16, lambda k: NI % sfmt(k), lambda k: ln(sbytes(sfmt(k))), "big_int"),
    ("bigdecimal::BigDecimal", 17, lambda k: ND % dfmt(k), lambda k: dec(*dfmt(k)), "big_decimal"),
    ("time::Date", 25, lambda k: TD % dt(k), e_date, "date"),
    ("time::OffsetDateTime", 26, lambda k: TO % tm(k), e_time, "date_time"),
]:
    LIB.append(T(rust, [code], (lambda v, e: lambda k: (v(k), e(k)))(val, enc), '#[serde(with = "dlhn::format::%s")] ' % mod))
    own = "dlhn::" + {"big_uint": "BigUint", "big_int": "BigInt", "big_decimal": "BigDecimal", "date": "Date", "date_time": "DateTime"}[mod]
    LIB.append(T(own, [code], (lambda v, e: lambda k: (v(k) + ".into()", e(k)))(val, enc)))

# derived definitions used inside others (in common.rs)
INNER = T("Inner", bytes([21, 2, 3, 18]), lambda k: ("Inner { a: %s, z: Opaque, b: %s }" % (U8.val(k)[0], STR.val(k)[0]), U8.val(k)[1] + STR.val(k)[1]))
INNERE = T("InnerE", bytes([24, 3, 0, 4, 3]), lambda k: [("InnerE::A", b"\0"), ("InnerE::B(%s)" % U16.val(k)[0], b"\1" + U16.val(k)[1]), ("InnerE::C { x: %s }" % U8.val(k)[0], b"\2" + U8.val(k)[1])][k % 3])
INNERT = T("InnerT", bytes([21, 1, 5]), lambda k: ("InnerT(%s)" % U32.val(k)[0], U32.val(k)[1]))
WNAMED = T("W", bytes([21, 1, 3]), lambda k: ("W(%s)" % U8.val(k)[0], U8.val(k)[1]))
CLASH = T("Clash", bytes([21, 1, 3]), lambda k: ("Clash { serialize_header: %s }" % U8.val(k)[0], U8.val(k)[1]))
ALIAS = T("Alias", bytes([20, 18]), vec(STR).val)
ASSOC = T("<u8 as Assoc>::A", U16.header, U16.val)
PAREN = T("(u8)", U8.header, U8.val)
OPAQUE = T("Opaque", b"?", lambda k: ("Opaque", None))

SCALARS = [UNIT, BOOL, U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, STR, BIN]
TYPES = SCALARS + LIB + [INNER, INNERE, INNERT, WNAMED, CLASH, ALIAS, ASSOC, PAREN, SREF, opt(STR), opt(opt(U16)), opt(INNER), vec(U16), vec(vec(U8)), vec(INNERE), mp(U16), mp(vec(INNER)),
                        tup(U8, STR), tup(U16), tup(INNER, tup(U8, INNERE)), vec(tup(U16, opt(STR))), T("std::collections::HashMap<String, u16>", [23, 4], lambda k: ('[("k".to_string(), %s)].into_iter().collect()' % U16.val(k)[0], b"\1\1k" + U16.val(k)[1])),
                        tup(*[U8] * 12)]
ROT = [U8, STR, U16, opt(U16), I32, vec(U8), BOOL, tup(U8, STR), U64, INNER, F32, INNERE, mp(U16)]

# attributes on a field; the first group leaves it written
WRITTEN = ["", "#[serde(skip_deserializing)] ", '#[serde(rename = "skip")] ', '#[serde(rename(serialize = "skip_serializing"))] ', '#[serde(default = "skip")] ', '#[serde(alias = "skip")] ', "/// skip\n", '#[serde(rename = "x", default)] ', "#[allow(dead_code)] "]
SKIPPED = ["#[serde(skip)] ", "#[serde(skip_serializing)] ", "#[serde(default, skip)] ", "#[serde(skip_serializing, skip_deserializing)] ", "#[serde(default)] #[serde(skip)] ", "#[cfg_attr(all(), serde(skip))] ", '#[serde(rename = "a", skip_serializing)] ', "#[serde(skip)] #[allow(dead_code)] ", "/// text\n#[serde(skip,)] "]
ATTRS = [(a, True) for a in WRITTEN] + [(a, False) for a in SKIPPED]
FEW = [ATTRS[0], ATTRS[1], ATTRS[2], ATTRS[len(WRITTEN)], ATTRS[len(WRITTEN) + 1], ATTRS[len(WRITTEN) + 4]]


class Field:
    def __init__(self, t, attr=("", True), name=None):
        self.t, self.attr, self.written, self.name = t, attr[0], attr[1], name


class Def:
    """one definition: its text (with the name NAME), header, values [(Rust text, bytes)], what it is"""

    def __init__(self, space, what, src, header, values, pre=""):
        self.space, self.what, self.src, self.header, self.values, self.pre = space, what, src, header, values, pre


def names(fields):
    return [f.name or "f%d" % i for i, f in enumerate(fields)]


def body_src(style, fields):
    if style == "named":
        return "{ %s }" % ", ".join("%s%s%s: %s" % (f.t.attr, f.attr, n, f.t.rust) for n, f in zip(names(fields), fields))
    if style == "tuple":
        return "(%s)" % ", ".join("%s%s%s" % (f.t.attr, f.attr, f.t.rust) for f in fields)
    return ""


def body_val(style, fields, k, newtype_struct=False):
    vals = [f.t.val(k + i) for i, f in enumerate(fields)]
    b = b"".join(v[1] for f, v in zip(fields, vals) if f.written or newtype_struct)
    if style == "named":
        return " { %s }" % ", ".join("%s: %s" % (n, v[0]) for n, v in zip(names(fields), vals)), b
    if style == "tuple":
        return "(%s)" % ", ".join(v[0] for v in vals), b
    return "", b


def struct_def(space, style, fields, container="", what=None, ks=(1, 5)):
    newtype = style == "tuple" and len(fields) == 1
    w = [f for f in fields if f.written or newtype]
    header = bytes([21]) + varint(len(w), 16) + b"".join(f.t.header for f in w)
    src = container + "struct NAME " + body_src(style, fields) + ("" if style == "named" else ";")
    values = []
    for k in ks:
        v, b = body_val(style, fields, k, newtype)
        values.append(("NAME" + v, b))
    return Def(space, what or " ".join(src.split()), src, header, values)


class Variant:
    def __init__(self, style, fields=(), attr="", written=True, name=None, disc=""):
        self.style, self.fields, self.attr, self.written, self.name, self.disc = style, list(fields), attr, written, name, disc

    def header(self):
        w = [f for f in self.fields if f.written]
        if not w:
            return b"\0"
        if len(w) == 1:
            return w[0].t.header
        return bytes([21]) + varint(len(w), 16) + b"".join(f.t.header for f in w)


def enum_def(space, variants, container="", what=None):
    w = [v for v in variants if v.written]
    assert all(v.written for v in variants[:len(w)]), "a skipped variant that is not last is a known finding"
    header = bytes([24]) + varint(len(w), 16) + b"".join(v.header() for v in w)
    nm = [v.name or "V%d" % i for i, v in enumerate(variants)]
    src = container + "enum NAME { %s }" % ", ".join(v.attr + n + " " + body_src(v.style, v.fields) + v.disc for n, v in zip(nm, variants))
    values = []
    for i, (n, v) in enumerate(zip(nm, variants)):
        if not v.written or len(variants) > 30 and 10 < i < len(variants) - 4 and i % 64 not in (0, 1, 63):
            continue
        s, b = body_val(v.style, v.fields, i + 1)
        values.append(("NAME::" + n + s, varint(i, 32) + b))
    return Def(space, what or " ".join(src.split()), src, header, values)


def rot(i, attr, alone):
    """field types in turn; what is not written need not be writable"""
    return OPAQUE if not attr[1] and i % 2 and not alone else ROT[i % len(ROT)]


def shapes():
    s, n = ("#[serde(skip)] ", False), ("", True)
    ss = ("#[serde(skip_serializing)] ", False)
    return [
        lambda a: Variant("unit"), lambda a: Variant("named", []), lambda a: Variant("tuple", []),
        lambda a: Variant("tuple", [Field(ROT[a], n)]), lambda a: Variant("tuple", [Field(ROT[a], n), Field(ROT[a + 1], n)]),
        lambda a: Variant("named", [Field(ROT[a], n)]), lambda a: Variant("named", [Field(ROT[a], n), Field(ROT[a + 1], n)]),
        lambda a: Variant("named", [Field(OPAQUE, s), Field(ROT[a + 1], n), Field(ROT[a + 2], n)]),
        lambda a: Variant("tuple", [Field(OPAQUE, s)]), lambda a: Variant("tuple", [Field(OPAQUE, ss), Field(ROT[a], n)]),
        lambda a: Variant("tuple", [Field(ROT[a], n), Field(OPAQUE, s)]), lambda a: Variant("tuple", [Field(OPAQUE, s), Field(OPAQUE, ss)]),
        lambda a: Variant("named", [Field(OPAQUE, s)]), lambda a: Variant("tuple", [Field(ROT[a], n), Field(ROT[a + 1], ss), Field(ROT[a + 2], n)]),
        lambda a: Variant("named", [Field(ROT[a], s), Field(ROT[a + 1], n)]),
    ]


VATTR = ['#[serde(rename = "skip")] ', '#[serde(rename_all = "UPPERCASE")] ', "#[serde(skip_deserializing)] ", '#[serde(alias = "skip")] ', "/// skip\n", "#[serde(rename(serialize = \"skip\"))] ", '#[serde(bound = "")] ', "#[allow(dead_code)] "]
VSKIP = ["#[serde(skip)] ", "#[serde(skip_serializing)] ", "#[serde(skip_serializing, skip_deserializing)] ", '#[serde(rename = "x", skip)] ', "#[serde(alias = \"x\")] #[serde(skip)] ", "#[cfg_attr(all(), serde(skip))] "]
CONTAINER = ['#[serde(rename_all = "camelCase")] ', '#[serde(rename = "untagged")] ', "#[serde(deny_unknown_fields)] ", '#[serde(rename_all = "kebab-case", deny_unknown_fields)] ', '#[serde(bound = "")] ', "/// untagged\n", "#[allow(dead_code)] ", "pub "]


def definitions(tier):
    th = tier == "thorough"
    out = []
    # fields and their attributes
    sp = "attributes"
    for style in ("named", "tuple"):
        for n, al in ((1, ATTRS), (2, ATTRS), (3, ATTRS if th else FEW), (4, FEW if th else [FEW[0], FEW[3]])):
            for combo in itertools.product(al, repeat=n):
                i = len(out)
                if style == "tuple" and any("default" in a[0] and "default" not in b[0] for a, b in zip(combo, combo[1:])):
                    continue  # serde has no such definition
                out.append(struct_def(sp, style, [Field(rot(i + j, a, style == 'tuple' and n == 1), a) for j, a in enumerate(combo)], ks=(1,)))
    # the types of fields
    sp = "types"
    for t in TYPES:
        out.append(struct_def(sp, "named", [Field(t)]))
        out.append(struct_def(sp, "tuple", [Field(t)]))
        out.append(struct_def(sp, "tuple", [Field(t), Field(U8)]))
        out.append(struct_def(sp, "tuple", [Field(t, ("#[serde(skip)] ", False))], ks=(1,)) if not t.attr else struct_def(sp, "named", [Field(U8), Field(t)]))
        out.append(enum_def(sp, [Variant("unit"), Variant("tuple", [Field(t)]), Variant("named", [Field(t)]), Variant("named", [Field(U16), Field(t)]), Variant("tuple", [Field(t), Field(t)])]))
    for a, b in itertools.product(TYPES if th else ROT, repeat=2):
        out.append(struct_def(sp, "named", [Field(a), Field(b)], ks=(2,)))
    # enums
    sp = "variants"
    sh = shapes()
    for n, l in ((1, sh), (2, sh), (3, sh if th else [sh[i] for i in (0, 2, 3, 4, 7, 8, 9)])):
        for combo in itertools.product(l, repeat=n):
            i = len(out)
            out.append(enum_def(sp, [f((i + j) % 10) for j, f in enumerate(combo)]))
    out.append(enum_def(sp, []))
    # skipped variants at the end, and other attributes on variants
    sp = "variant attributes"
    for i, f in enumerate(sh):
        for a in VATTR:
            if "skip_deser" not in a or True:
                for before in (0, 1):
                    v = f(i % 10)
                    v.attr = a
                    out.append(enum_def(sp, [Variant("tuple", [Field(U8)])] * before + [v, Variant("unit")]))
        for j, a in enumerate(VSKIP):
            for kept in range(3):
                for gone in (1, 2):
                    vs = [sh[(i + m) % len(sh)](m) for m in range(kept)]
                    for m in range(gone):
                        v = f((i + m) % 10)
                        v.attr, v.written = VSKIP[(j + m) % len(VSKIP)], False
                        vs.append(v)
                    if th or (i + j + kept + gone) % 3 == 0 or gone == 1:
                        out.append(enum_def(sp, vs))
    # whole definitions
    sp = "containers"
    for c in CONTAINER:
        out.append(struct_def(sp, "named", [Field(U8), Field(OPAQUE, ("#[serde(skip)] ", False)), Field(STR)], c))
        out.append(struct_def(sp, "tuple", [Field(U16), Field(STR)], c if "rename_all" not in c else ""))
        for f in sh:
            out.append(enum_def(sp, [f(1), f(3)], c))
    for f in sh:
        # adjacent tags: the index, then the content
        out.append(enum_def(sp, [f(1), f(4)], '#[serde(tag = "t", content = "c")] '))
        out.append(enum_def(sp, [f(1), f(4)], '#[serde(content = "c")] #[serde(tag = "t")] '))
    for t in TYPES:
        if not t.attr:
            out.append(struct_def(sp, "tuple", [Field(t)], "#[serde(transparent)] "))
            out.append(struct_def(sp, "named", [Field(OPAQUE, ("#[serde(skip)] ", False)), Field(t)], "#[serde(transparent)] "))
    out.append(struct_def(sp, "unit", []))
    out.append(struct_def(sp, "named", []))
    out.append(struct_def(sp, "tuple", []))
    for ident in ("r#type", "r#match", "writer", "W", "skip", "header", "Ok", "__W", "std_", "serialize_header", "é", "_a", "A"):
        out.append(struct_def(sp, "named", [Field(U8, name=ident), Field(STR, name="other")], "#[allow(non_snake_case, uncommon_codepoints)] "))
        if ident not in ("Ok", "W"):
            out.append(enum_def(sp, [Variant("named", [Field(U8, name=ident)]), Variant("named", [Field(U8, name=ident), Field(STR, name="other")]), Variant("unit", name="r#Yield" if "r#" in ident else None)], "#[allow(non_snake_case, uncommon_codepoints)] "))
    out.append(enum_def(sp, [Variant("unit", disc=" = 5"), Variant("unit"), Variant("unit", disc=" = 1")]))
    out.append(enum_def(sp, [Variant("unit", disc=" = -1"), Variant("tuple", [Field(U8)], disc=" = 300")], "#[repr(i16)] "))
    # counts
    sp = "counts"
    for n in list(range(41)) + [63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300] + ([511, 512, 513, 1000, 1024, 2048, 4096] if th else [520]):
        ts = [ROT[i % len(ROT)] for i in range(n)] if n <= 40 else [U8] * (n - 1) + [STR]
        for style in ("named", "tuple"):
            out.append(struct_def(sp, style, [Field(t) for t in ts], what="struct, %s, %d fields" % (style, n), ks=(1,)))
            if n > 1:
                out.append(enum_def(sp, [Variant("unit"), Variant(style, [Field(t) for t in ts])], what="enum variant, %s, %d fields" % (style, n)))
        if n > 1:
            # skipped ones do not count
            k = [Field(t, ("#[serde(skip)] ", False)) if i in (0, n // 2) else Field(t) for i, t in enumerate(ts)]
            out.append(struct_def(sp, "named", k, what="struct, %d fields, 2 of them skipped" % n, ks=(1,)))
            out.append(enum_def(sp, [Variant("named", k)], what="variant, %d fields, 2 of them skipped" % n))
        d = enum_def(sp, [Variant("unit") if i % 2 else Variant("tuple", [Field(ROT[i % len(ROT)])]) for i in range(n)], what="enum, %d variants" % n)
        out.append(d)
    return out


def wide(tier):
    """counts that take three bytes; one program each, for they take long to compile"""
    out = []
    for n in (16384,) if tier == "quick" else (16383, 16384, 16385):
        d = struct_def("wide", "tuple", [Field(U8)] * n, what="struct, tuple, %d fields, header only" % n)
        d.values = []
        out.append(d)
    if tier != "quick":
        for d in (enum_def("wide", [Variant("unit")] * 16384, what="enum, 16384 variants, header only"),
                  enum_def("wide", [Variant("unit"), Variant("named", [Field(U8)] * 16384)], what="variant, 16384 fields, header only"),
                  enum_def("wide", [Variant("tuple", [Field(U8)] * 16384)], what="tuple variant, 16384 fields, header only")):
            d.values = []
            out.append(d)
    return out


COMMON = r'''
#![allow(dead_code, unused_parens, unused_imports, non_camel_case_types, clippy::all)]
use dlhn::{Body, DeserializeHeader, Serializer};
use mc::explore::{Check, Ctx, Space};
use mc::{model, real};
use serde::Serialize;

#[derive(Serialize)] #[cfg_attr(not(without_header), derive(dlhn::SerializeHeader))]
pub struct Inner { pub a: u8, #[serde(skip)] pub z: Opaque, pub b: String }
#[derive(Serialize)] #[cfg_attr(not(without_header), derive(dlhn::SerializeHeader))]
pub enum InnerE { A, B(u16), C { x: u8 } }
#[derive(Serialize)] #[cfg_attr(not(without_header), derive(dlhn::SerializeHeader))]
pub struct InnerT(pub u32);
#[derive(Serialize)] #[cfg_attr(not(without_header), derive(dlhn::SerializeHeader))]
pub struct W(pub u8);
#[derive(Serialize)] #[cfg_attr(not(without_header), derive(dlhn::SerializeHeader))]
pub struct Clash { pub serialize_header: u8 }
impl Clash { pub fn serialize_header(_: ()) {} }
pub type Alias = Vec<String>;
pub trait Assoc { type A; }
impl Assoc for u8 { type A = u16; }
pub struct Opaque;
pub fn skip<T: Default>() -> T { T::default() }

/// a writer of so many bytes, a few at a time
pub struct Wr { pub got: Vec<u8>, pub cap: usize, pub step: usize }
impl std::io::Write for Wr {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        if self.got.len() == self.cap { return Err(std::io::ErrorKind::Other.into()) }
        let n = b.len().min(self.step).min(self.cap - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub struct Case { pub what: &'static str, pub header: &'static [u8], pub write_header: fn(&mut Wr) -> std::io::Result<()>, pub values: &'static [(fn(&mut Vec<u8>) -> bool, &'static [u8])] }

fn run(c: &Ctx, d: &Case) -> Check {
    let i = c.choose(d.values.len() + 1);
    c.state(&(d.what, i));
    c.label(|| if i == 0 { d.what.into() } else { format!("{}, value {}", d.what, i) });
    let mut w = Wr { got: vec![], cap: usize::MAX, step: usize::MAX };
    (d.write_header)(&mut w).map_err(|e| format!("{}: the header is not written: {}", d.what, e))?;
    if w.got != d.header { return Err(format!("{}: header {:?}, should be {:?}", d.what, w.got, d.header)) }
    let mut r = &w.got[..];
    let h = r.deserialize_header().map_err(|e| format!("{}: header {:?} does not decode: {}", d.what, w.got, e))?;
    if !r.is_empty() { return Err(format!("{}: header {:?} has bytes behind it", d.what, w.got)) }
    c.validated(1);
    if i == 0 {
        for step in [1, 2, 3] {
            let mut x = Wr { got: vec![], cap: usize::MAX, step };
            if (d.write_header)(&mut x).is_err() || x.got != d.header { return Err(format!("{}: header written {} bytes at a time: {:?}", d.what, step, x.got)) }
        }
        for cap in (0..d.header.len()).take(300) {
            let mut x = Wr { got: vec![], cap, step: 2 };
            if (d.write_header)(&mut x).is_ok() { return Err(format!("{}: the header fits into {} bytes", d.what, cap)) }
            if x.got != d.header[..cap] { return Err(format!("{}: a writer of {} bytes has {:?}", d.what, cap, x.got)) }
        }
        return Ok(());
    }
    let (ser, want) = &d.values[i - 1];
    let mut o = Vec::new();
    if !ser(&mut o) { return Err(format!("{}: value {} is not serialized", d.what, i)) }
    if o != *want { return Err(format!("{}: value {} is written as {:?}, should be {:?}", d.what, i, o, want)) }
    let t = real::ty_of(&h);
    let mut m = model::Dec::new(&o);
    let v = match m.dec(&t) { Ok(v) if m.pos == o.len() => v, x => return Err(format!("{}: value {}, bytes {:?}, is not what the header says: {:?}", d.what, i, o, x)) };
    let mut b = o.clone();
    b.extend_from_slice(&[1, 0x80, 0xFF]);
    let (x, n) = real::body_de(&h, &b);
    let x: Body = x.map_err(|e| format!("{}: value {}, bytes {:?}, does not decode by its header: {:?}", d.what, i, o, e))?;
    if n != o.len() { return Err(format!("{}: value {}, {} bytes, by its header {} are read", d.what, i, o.len(), n)) }
    let want_body = real::body_of(&h, &v)?;
    if x != want_body { return Err(format!("{}: value {} decodes to {:?}, should be {:?}", d.what, i, x, want_body)) }
    if !x.validate(&h) { return Err(format!("{}: the decoded value {} does not validate", d.what, i)) }
    let back = real::ser_any(&x).map_err(|e| format!("{:?}", e))?;
    if back != o { return Err(format!("{}: value {} is written again as {:?}, not {:?}", d.what, i, back, o)) }
    Ok(())
}
pub fn no_header(_: &mut Wr) -> std::io::Result<()> { Ok(()) }
pub fn s<T: Serialize>(o: &mut Vec<u8>, v: T) -> bool { v.serialize(&mut Serializer::new(o)).is_ok() }
pub fn space(name: &str, cases: &'static [Case]) -> Space {
    Space::new(name, &format!("{} definitions, header and values", cases.len()), move |c| run(c, &cases[c.choose(cases.len())]))
}
'''


def lit(b):
    return 'b"%s"' % "".join("\\x%02x" % x for x in b)


def rstr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')[:600].replace("\n", " ")


def shard_source(defs, shard, with_serde=True):
    """Rust source of one binary"""
    o = ["mod common;", "use common::*;", "use serde::Serialize;"]
    spaces = {}
    for i, d in enumerate(defs):
        n = "D%d" % i
        serde = "#[derive(Serialize)]" if with_serde and d.space != "wide" else ""
        o.append(serde + " #[cfg_attr(not(without_header), derive(dlhn::SerializeHeader))] " + d.src.replace("NAME", n))
        o.append("#[cfg(not(without_header))] fn h%d(w: &mut Wr) -> std::io::Result<()> { <%s as dlhn::SerializeHeader>::serialize_header(w) }" % (i, n))
        o.append("#[cfg(without_header)] use no_header as h%d;" % i)
        vals = ", ".join("(|o| s(o, %s), %s)" % (v.replace("NAME", n), lit(b)) for v, b in d.values)
        spaces.setdefault(d.space, []).append("Case { what: %s, header: %s, write_header: h%d, values: &[%s] }" % (rstr(d.what), lit(d.header), i, vals))
    for k, (sp, cs) in enumerate(spaces.items()):
        o.append("static S%d: [Case; %d] = [\n%s];" % (k, len(cs), ",\n".join(cs)))
    o.append("fn main() { mc::cli::main(|_, _| vec![%s]); }" % ", ".join('space("%s, part %d", &S%d)' % (sp, shard, k) for k, sp in enumerate(spaces)))
    return "#![allow(dead_code, unused_parens, unused_imports, non_camel_case_types, clippy::all)]\n" + "\n".join(o) + "\n"
