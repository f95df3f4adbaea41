"""What is claimed: the properties, their rules, levels and anchors.
`python3 propinfo.py` rewrites properties.jsonl and MANIFEST.json from this file."""
import json
from pathlib import Path

SEMANTIC = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P24", "P25", "P26"]

F = "bitfields_impl/src/generating/bitfield/features/"
H = F + "common/generator_helper.rs"
BP = "bitfields_impl/src/parsing/bitfields/bitfield_parser.rs"
BA = "bitfields_impl/src/parsing/bitfields/bitfield_attribute/bitfield_arguments.rs"
FA = "bitfields_impl/src/parsing/bitfields/bits_attribute/bits_arguments.rs"
FL = "bitfields_impl/src/generating/bitflag/bitflag_generator.rs"
FP = "bitfields_impl/src/parsing/bitflags/bitflag_parser.rs"
EN = "bitfields_impl/src/generating/common/endian_conversion.rs"

# id: (title, statement, quantifier over, quantifier text, why tests can't, files, mechanisms [(name, where)])
P = {}


def prop(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = (title, statement, over, text, why, files, mech)


DECL = "every accepted declaration (backing u8..u128 or [u8; N], any split into fields, types, order, access) and every stored value"
WHY = "The tests check a handful of declarations on sampled values; the claim ranges over all values of up to N*8 bits of state and over every way to split a backing into fields, orders and accesses."

prop("P01", "Fields occupy disjoint, declared-size, order-determined bit ranges",
     "The fields of a bitfield partition the backing storage: each takes exactly its declared number of bits (its type's width when none is given), the first declared field is at bit 0 with lsb order and at the top with msb order, and neighbours follow without gap or overlap. The generated <FIELD>_BITS and <FIELD>_OFFSET constants state exactly that width and position. The struct is no larger than its backing (plus any ignored fields).",
     ["inputs", "programs"], "every accepted declaration: backing type, field widths, order, reserved and ignored fields",
     "Every layout is a different program; the tests enumerate a few dozen layouts and never relate constants, getters and setters to one partition.",
     [BP, F + "field_constants_feature.rs", F + "bitfield_struct_feature.rs"], [("offset assignment", BP), ("constants", F + "field_constants_feature.rs")])
prop("P02", "Getters return exactly the field's bits",
     "A readable field's getter returns precisely the bits stored in that field's range - zero-extended for unsigned types and bool, sign-extended for signed types, packed byte by byte for arrays - whatever the other bits are. It never changes the bitfield.",
     ["inputs", "programs"], DECL, WHY, [F + "field_getters_feature.rs", H], [("value extraction and sign extension", H), ("getter generation", F + "field_getters_feature.rs")])
prop("P03", "Setters store the field and nothing else",
     "A writable field's unchecked setter stores the low declared bits of its argument in that field's range, discarding the bits that do not fit, and leaves every other bit of the bitfield (including reserved and read-only ones) as it was.",
     ["inputs", "programs"], DECL + " and every argument value", WHY, [F + "field_setters_feature.rs", H], [("masking and insertion", H), ("setter generation", F + "field_setters_feature.rs")])
prop("P04", "Checked setters accept exactly the values that fit",
     "A checked setter returns Ok and stores the value exactly when the value is representable in the field's bits (unsigned: at most 2^w-1; signed: within two's complement range; array: no set bit beyond the width). Otherwise it returns Err and leaves the whole bitfield unchanged. After Ok the getter returns the very value that was stored.",
     ["inputs", "programs"], DECL + " and every argument value", WHY, [F + "field_setters_feature.rs", H], [("range check", F + "field_setters_feature.rs")])
prop("P05", "Construction yields exactly the declared defaults",
     "new() and Default give a bitfield whose every field holds its declared default (zero when none), for every access kind and for reserved fields. new_without_defaults() gives all zero bits except reserved fields, which keep their defaults.",
     ["inputs", "programs"], "every accepted declaration and every default literal or expression, of any width and sign", WHY, [F + "new_functions_feature.rs", F + "default_trait_feature.rs", H], [("default application", H), ("constructors", F + "new_functions_feature.rs")])
prop("P06", "The builder builds exactly what it was told",
     "A builder started with new() builds the default bitfield, one started without defaults builds the default-free bitfield, and each with_<field> call changes exactly that field as its setter would. checked_with_<field> follows the checked setter's accept/reject rule, and build() returns exactly the accumulated state.",
     ["inputs", "programs", "histories"], DECL + ", every argument and every sequence of builder calls (each step from an arbitrary builder state)", WHY, [F + "builder_feature.rs"], [("builder methods", F + "builder_feature.rs")])
prop("P07", "Conversions from/to bits and bytes round-trip and honour endianness",
     "Converting bits or bytes into a bitfield and back yields the same bits; every le/be variant interprets and produces the value in that byte order; the unsuffixed conversions and From/Into traits use the configured from/into endianness. Every bit of the input lands in the field that owns its position.",
     ["inputs", "programs", "configurations"], DECL + " and every endianness configuration", WHY, [F + "from_into_bits_feature.rs", F + "from_traits_feature.rs", EN], [("endian conversion", EN), ("conversions", F + "from_into_bits_feature.rs")])
prop("P08", "Slice conversions never read or write past what is there",
     "For array-backed bitfields, conversion from a slice uses the first min(len, N) bytes in the stated byte order with missing bytes zero, and conversion into a slice writes exactly the first min(len, N) bytes and leaves the rest untouched. The checked forms return Err without effect exactly when the slice is shorter than N bytes.",
     ["inputs", "programs"], "every array-backed declaration, every slice length including zero, every content", WHY, [F + "from_into_bits_feature.rs"], [("slice copy", F + "from_into_bits_feature.rs")])
prop("P09", "from_*_with_defaults overrides exactly the fields that have defaults",
     "Every with-defaults conversion gives each field that declares a default that default, whatever the input, and gives every other field the input's bits exactly like the conversion without defaults.",
     ["inputs", "programs", "configurations"], DECL + ", every endianness and input length", WHY, [F + "from_into_bits_feature.rs", H], [("default application", H)])
prop("P10", "write operations replace writable fields only",
     "Writing bits or bytes to an existing bitfield gives every writable field the corresponding bits (in the configured or stated byte order) and leaves read-only, no-access and reserved bits as they were. Writing the defaults gives every field its declared default (zero when none) in place.",
     ["inputs", "programs", "configurations"], DECL + " and every written value", WHY, [F + "write_bit_ops_feature.rs"], [("write ops", F + "write_bit_ops_feature.rs")])
prop("P11", "Bit operations never alter read-only, no-access or reserved bits",
     "No single-bit, range, clear or invert operation changes a bit of a read-only, no-access or reserved field, except that clearing the whole bitfield resets them to their constructed state. Bits of write-only and no-access fields are never revealed through bit and range getters.",
     ["inputs", "programs", "histories"], DECL + ", every index, offset, length and value (in and out of range)", WHY, [F + "set_get_bit_ops_feature.rs", F + "invert_bit_ops_feature.rs", H], [("protected ranges", H), ("bit ops", F + "set_get_bit_ops_feature.rs")])
prop("P12", "Single-bit operations read and set exactly the addressed bit",
     "Getting and setting bit i read or change exactly bit i when it belongs to a readable respectively writable field. Out of range or inaccessible indices give false or no change in the unchecked forms and Err without change in the checked forms.",
     ["inputs", "programs"], DECL + " and every 32-bit index", WHY, [F + "set_get_bit_ops_feature.rs"], [("single-bit ops", F + "set_get_bit_ops_feature.rs")])
prop("P13", "Range operations read and write exactly the addressed bit range",
     "A range getter returns the readable bits of the given offset and length packed from bit 0 (unreadable bits as zero); a range setter changes exactly the writable bits of the range, taking them from the low bits of the value. A range reaching outside the bitfield gives zero or no change, never an overflow or panic. The checked forms return Err without change exactly when the range reaches outside the bitfield or contains a bit that is not readable respectively writable.",
     ["inputs", "programs"], DECL + ", every 32-bit offset and length and every value", WHY, [F + "set_get_bit_ops_feature.rs", H], [("range ops", F + "set_get_bit_ops_feature.rs")])
prop("P14", "Clear operations restore exactly the cleared state",
     "Clearing the bitfield gives the state of construction without defaults, clearing with defaults the state of construction with defaults. Clearing one field zeroes exactly that field (or gives it its declared default in the to-default form) and touches nothing else.",
     ["inputs", "programs"], DECL, WHY, [F + "clear_bit_ops_feature.rs"], [("clear ops", F + "clear_bit_ops_feature.rs")])
prop("P15", "Invert operations flip exactly the named field's bits",
     "Inverting a field flips each of its bits and no other; inverting the bitfield flips every bit of every writable field and no other. The inverted getter returns the field's flipped bits as a value of the field's type (sign-extended when signed) without changing the bitfield.",
     ["inputs", "programs"], DECL, WHY, [F + "invert_bit_ops_feature.rs", H], [("invert ops", F + "invert_bit_ops_feature.rs")])
prop("P16", "Generated code never panics and never overflows",
     "No generated function panics, indexes out of bounds, overflows or shifts by too much, for any argument and any state, in debug and in release builds alike.",
     ["inputs", "programs"], "every generated function of " + DECL + ", every argument", "A panic needs one boundary value in one layout; tests sample a few values and only debug builds.", [H, F + "set_get_bit_ops_feature.rs", F + "from_into_bits_feature.rs"], [("masks and shifts", H)])
prop("P17", "Bitflags map bits to variants totally and faithfully",
     "For every bit pattern, converting it to a bitflag gives the variant declared with that value, or the base variant (else the default variant) when no variant has it; converting a variant to bits gives its declared value. Both directions honour the configured endianness, and every conversion is defined for all patterns.",
     ["inputs", "programs", "configurations"], "every unsigned representation, every set of variants and values, both endiannesses in each direction, all bit patterns", WHY, [FL, FP, EN], [("from_bits match", FL), ("into_bits", FL)])
prop("P18", "Custom, nested and bitflag field types go through their own conversions",
     "A field of a user-defined, nested-bitfield or bitflag type is read by passing its raw bits to the type's own from-bits conversion and stored by masking the result of its own into-bits conversion; the field occupies exactly its declared bits and no other bit changes. Construction, builders, conversions and defaults treat such fields the same way.",
     ["inputs", "programs"], "every declaration with fields of custom, nested or bitflag types, every access, position, width and value", WHY, [H, F + "field_getters_feature.rs", F + "field_setters_feature.rs"], [("custom type conversion", H)])
prop("P19", "Invalid declarations are rejected at compile time, valid ones are not",
     "A declaration whose fields do not add up to the backing's bits, whose field type cannot hold its bits, whose literal default does not fit its bits, or that uses an unsupported type, argument, argument value, duplicate name, or access on a reserved field, does not compile; nor does a bitflag without exactly one base/default, or without explicit, distinct values on an unsigned type. The nearest valid declaration compiles.",
     ["programs"], "every declaration that breaks one documented rule, at every boundary width, type, position, radix and order", "The compile-fail tests hold a few dozen fixed programs; the rule ranges over all widths, types and positions.", [BP, BA, FA, FP], [("validation", BP), ("argument parsing", BA)])
prop("P20", "Configuration arguments generate exactly the API they promise",
     "Each configuration argument turns on or off exactly its documented functions and trait implementations (constructors, conversions, traits, copy, builder, each group of bit operations), independently of the others except where documented (one switch disables all bit operations, dependents follow). Every generated function has its documented name and signature, and every trait implementation promised (and none switched off) is there.",
     ["programs", "configurations"], "every combination of the boolean, endianness and order arguments, for integer, array and heap backings", "2^13 combinations times backings; the tests cover single switches on fixed structs.", [BA, "bitfields_impl/src/generating/bitfield/bitfield_generator.rs"], [("feature selection", "bitfields_impl/src/generating/bitfield/bitfield_generator.rs")])
prop("P21", "Access modes and reserved names decide which accessors exist, and how visible",
     "Read-only fields get no setters (only the builder can set them), write-only fields no getters, no-access and reserved (underscore) fields no public accessors of either kind, and per-field clear and invert functions exist only for writable fields. Accessors of readable fields carry the field's declared visibility (the struct's where the field declares none) and the raw storage is private.",
     ["programs"], "every combination of access, reserved naming, visibility and argument", "Absence of a function is not observable by a running test; each combination is another program.", [F + "field_getters_feature.rs", F + "field_setters_feature.rs", F + "builder_feature.rs", FA], [("access filters", F + "field_setters_feature.rs")])
prop("P22", "Generated code is safe, const, allocation-free and works without std",
     "Generated code contains no unsafe block and, unless heap storage is asked for, uses neither std nor alloc and compiles in a no_std crate of any edition. The documented const functions are const, the storage of a plain bitfield is exactly its backing type (transparent), and integers and arrays stay on the stack.",
     ["programs", "configurations"], "every accepted declaration and configuration, editions 2018 to 2024", "Tests always link std and run on one edition.", [F + "bitfield_struct_feature.rs", "bitfields_impl/src/generating/bitfield/bitfield_generator.rs"], [("paths through ::core", F + "bitfield_struct_feature.rs")])
prop("P23", "Cargo features set the defaults; explicit arguments override them",
     "Each documented cargo feature changes exactly its documented default (order, endianness, generated groups, copy, heap; likewise for bitflags) for declarations that do not specify the argument. An argument given explicitly wins over any feature, and without features the documented defaults apply.",
     ["programs", "configurations"], "every consistent set of the 42 documented features and every argument", "A test binary is compiled with one feature set.", [BA, "bitfields_impl/src/parsing/bitflags/bitflag_arguments.rs", "bitfields/Cargo.toml", "bitfields_impl/Cargo.toml"], [("feature resolution", BA)])
prop("P24", "Debug output names the struct and every field with its stored value",
     "The Debug implementation prints the struct's name and every field except ignored ones in declaration order, each with the value of its stored bits, for every state. It does not alter or depend on anything else.",
     ["inputs", "programs"], DECL, WHY, [F + "debug_trait_feature.rs"], [("debug impl", F + "debug_trait_feature.rs")])
prop("P25", "Ignored fields live beside the bits and never interact with them",
     "An ignored field occupies no bits, keeps its declared type and visibility, starts at its type's default value in every constructor and conversion, and is never changed by any operation on the bits; changing it changes no bit. The other fields behave as if it were not declared.",
     ["inputs", "programs"], "every declaration with ignored fields of any Default type at any position, and every operation", WHY, [F + "bitfield_struct_feature.rs", F + "new_functions_feature.rs", H], [("ignored fields", F + "bitfield_struct_feature.rs")])
prop("P26", "Heap-allocated bitfields behave exactly like stack ones",
     "An array-backed bitfield with heap storage gives, for every operation, state and argument, the same results and the same state changes as the same declaration on the stack. Only constness and where the bytes live differ.",
     ["inputs", "programs"], "every array-backed declaration with heap storage, every generated function, state and argument", WHY, [F + "bitfield_struct_feature.rs", H, F + "from_into_bits_feature.rs"], [("heap variants", H)])
prop("P27", "Every accepted declaration expands to code that compiles; errors are diagnostics",
     "A declaration that follows the documented rules compiles under every combination of arguments, names (raw identifiers included), visibilities, attributes, default expressions, editions and sizes. Malformed input yields an error message pointing at the declaration, never a panic inside the macro.",
     ["programs", "configurations"], "every well-formed declaration (bit counts below 2^32) and every malformed attribute", "Each declaration is another program; the suite compiles a fixed few hundred.", [BP, "bitfields_impl/src/lib.rs", F + "builder_feature.rs"], [("entry points", "bitfields_impl/src/lib.rs")])

ABS = "abstract interpretation (bit-level value domain) of the optimised-off MIR of the macro's expansion, compared with a layout specification"
RULES = {
    "P01": "every X_BITS/X_OFFSET constant evaluates to the specification's width and offset; size and storage type are the backing; the setter/getter bit maps are those of P02/P03",
    "P02": "with the state an arbitrary symbolic bit vector, the abstract result of every getter is bit for bit the specified selection of state bits (sign/zero extension included); the receiver is unchanged",
    "P03": "with state and argument arbitrary, the state after each setter is, bit for bit, argument bits inside the field and old bits outside",
    "P04": "on every path: Ok with the P03 state iff the specified representability condition over the argument's bits holds; else Err and the unchanged state",
    "P05": "the constant state computed for new/new_without_defaults/Default equals the specified defaults bit for bit",
    "P06": "each builder function, from an arbitrary builder state, has the specified effect (P03/P04 per field; P05 for constructors; identity for build and conversions)",
    "P07": "each conversion's result is, bit for bit, the specified permutation of the input's bits and its inverse; traits equal the functions",
    "P08": "for each slice length 0..N+2 and symbolic content: result/state/out-slice are the specified bits; checked forms Err iff too short",
    "P09": "result equals the P07/P08 permutation with the bits of defaulted fields replaced by the default",
    "P10": "state after equals written bits inside writable fields and old bits outside; defaults state for write_defaults",
    "P11": "for every operation and every index/offset/length class, the bits of protected fields after equal those before, and unreadable bits read as zero",
    "P12": "for every bit index and for the symbolic index beyond the end: result and state equal the specification",
    "P13": "for every offset x length in the bitfield plus boundary classes outside (up to u32::MAX): result and state equal the specification",
    "P14": "state after each clear function equals the specified state bit for bit",
    "P15": "state/result of each invert function equals the specified negation bit for bit",
    "P16": "no reachable path of any generated function ends in a panic, failed assert, out-of-range index or overflowing shift/arithmetic",
    "P17": "for each declared value and for the symbolic remaining patterns: the path condition leads to the specified variant; into_bits gives the specified constant",
    "P18": "getter result is from_bits(raw bits), state after setter is mask(into_bits(arg)), with from_bits/into_bits analysed through",
    "P19": "each witness that breaks one rule is refused by the compiler with a diagnostic; its valid twin type-checks",
    "P20": "the set of inherent functions, trait impls and signatures of each type in the type-checked program equals the documented set for its arguments",
    "P21": "accessor existence and effective visibility in the type-checked program equal the specification per field",
    "P22": "no unsafe block in any expanded body; constness and repr as documented; the same declarations type-check in #![no_std] crates",
    "P23": "under each feature set, the surface (P20 rule) and order/endianness (P01, P05, P07, P10, P17 rules) equal the documented defaults overridden by explicit arguments; cargo's own feature resolution from the facade reaches the macro",
    "P24": "abstract run of fmt records the name, field order and values handed to the formatter; each value's bits equal the stored bits",
    "P25": "ignored members keep their abstract value through every operation, start at Default, and the bit results equal the specification without them; surface: type and visibility kept",
    "P26": "every rule of P01-P15 applied to the heap variant with the same specification as its stack twin",
    "P27": "each valid but unusual declaration type-checks; no malformed one makes the macro panic",
}
SURF = "query over the type-checked program's item surface (rustc driver) against the documented API model"
WIT = "compile-fail witnesses with compiling twins, generated per rule and boundary, decided by the type checker"
TECH = {p: ABS for p in SEMANTIC}
TECH.update(P19=WIT, P20=SURF, P21=SURF, P22=SURF + "; unsafe-block scan of all expanded bodies; no_std type-checking", P23=SURF + " and abstract interpretation, per feature set; cargo feature resolution",
            P27="type-checking of generated valid declarations and malformed witnesses", P25=ABS + "; surface query for type and visibility")
LEVEL = {p: "translation_validation" for p in P}
LEVEL.update(P19="other", P27="other")
TRUSTED = ["rustc nightly front end and MIR construction", "the abstract interpreter in analyzer/ (transfer functions for MIR statements and the modelled core functions)",
           "the layout/API specification in analyzer/src/spec.rs, gen.py and apimodel.py, written from the README", "the declaration corpus in gen.py as representative of all declarations"]
NOTE = {p: "For every declaration of the corpus (enumerated boundaries plus seeded random ones) the claim is decided for all states and all arguments at once, without running the code; declarations outside the corpus are covered only by the generator's uniformity. Trusts rustc's MIR, the interpreter and the README-derived specification." for p in P}
NOTE["P19"] = NOTE["P27"] = "Decides each generated witness by the compiler itself; the set of witnesses is a boundary-directed enumeration, not all programs."
for p in ("P20", "P21", "P22", "P23"):
    NOTE[p] = "For every declaration of the corpus the whole generated surface is compared, extra and missing items alike; argument combinations are covered pairwise or better, not all 2^13."
EXPL = {
    "P19": "Each witness program is type-checked by rustc against the macro built from /repo; a violation is a rule-breaking declaration that compiles or a valid twin that does not.",
    "P27": "Each declaration is type-checked by rustc against the macro built from /repo; a violation is a valid declaration that does not compile or any input that panics the macro.",
}
FLOORS = {}
_f = Path(__file__).resolve().parent / "floors.json"
if _f.exists():
    FLOORS = json.loads(_f.read_text())


def write():
    here = Path(__file__).resolve().parent
    with open(here / "properties.jsonl", "w") as f:
        for pid in sorted(P):
            t, s, over, text, why, files, mech = P[pid]
            f.write(json.dumps(dict(id=pid, title=t, statement=s, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))) + "\n")
    checks = [dict(property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
                   technique=TECH[pid], level=LEVEL[pid], level_note=NOTE[pid]) for pid in sorted(P)]
    (here / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="cd analyzer && cargo +nightly build --release --offline",
                                                        checks=checks, not_applicable=[]), indent=1) + "\n")


if __name__ == "__main__":
    write()
