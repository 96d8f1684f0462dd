#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
I = "include/ipaddress/"
def a(files, mech, state=(), obs=(), hook=None):
    return dict(files=[I+f for f in files], state=[dict(name=n, meaning=m, where=I+w) for n, m, w in state],
                mechanism=[dict(name=n, where=I+w) for n, w in mech], observe_at=list(obs), hook_needed=hook)
P = []
def p(id, title, st, over, text, why, anch):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anch))

p("C01", "IPv4 text is accepted exactly when it is canonical dotted decimal",
  "Parsing succeeds for exactly the texts made of four decimal octets 0-255 without superfluous leading zeros, separated by single dots, and yields those four octets in network order. Every other text is rejected with the error that names its first defect, and yields the default address. All ways of passing the same text (view, string, character array) agree.",
  ["inputs"], "every finite text over all byte values, of any length, and every way to hand it over",
  "The language is infinite and the tests sample about a hundred texts, mostly with a single defect at one position.",
  a(["base-v4.hpp", "ip-address-base.hpp", "fixed-string.hpp"],
    [("character automaton over the text", "base-v4.hpp: ip_from_string"), ("entry points", "ip-address-base.hpp: parse")],
    [("octet accumulator", "completed octets, digits and value of the current one", "base-v4.hpp: ip_from_string")],
    ["result and error code of parse"]))
p("C02", "IPv6 text is accepted exactly per the RFC 4291 grammar with optional scope",
  "Parsing succeeds for exactly the texts consisting of eight hexadecimal groups of one to four digits, with at most one '::' standing for one or more zero groups, an optional dotted-decimal tail in place of the last two groups, and an optional non-empty valid scope id after '%'; the value is the 128 bits written. Every other text is rejected with the error that names its defect and yields the default address. All ways of passing the same text agree.",
  ["inputs"], "every finite text over all byte values, of any length, and every way to hand it over",
  "Group count, '::' position, embedded IPv4, scope and error kinds multiply to far more shapes than the listed test texts.",
  a(["base-v6.hpp", "ipv6-address.hpp", "ip-address-base.hpp"],
    [("splitting into groups, bounds of '::', group values", "base-v6.hpp: split_parts, get_parts_bound, parse_parts"), ("scope split", "base-v6.hpp: split_scope_id")],
    [("parts", "groups seen so far, current group, double colon seen", "base-v6.hpp: split_parts")],
    ["result and error code of parse"]))
p("C03", "Formatting is canonical and parsing it back gives the same address",
  "The full form prints every hexadecimal digit, the compact form drops leading zeros, and the compressed form additionally replaces the leftmost longest run of two or more zero groups by '::'; IPv4 prints dotted decimal and the scope id follows '%'. Every text so produced parses back to the same address, in every string type and output stream. The reverse pointer is the address's octets or nibbles in reverse order under in-addr.arpa or ip6.arpa.",
  ["inputs"], "every IPv4 and IPv6 address, every scope id, every format, every string type",
  "There are 2^128 addresses and 256 zero-group patterns per format; tests print a few dozen.",
  a(["base-v4.hpp", "base-v6.hpp", "ip-address-base.hpp", "ipv6-address.hpp"],
    [("group printing and run compression", "base-v6.hpp: ip_to_chars"), ("octet printing", "base-v4.hpp: ip_to_chars, byte_to_string"), ("reverse pointers", "base-v4.hpp, base-v6.hpp: ip_reverse_pointer")],
    [], ["to_string, to_wstring, to_u16string, to_u32string, to_u8string, std::to_string, operator<<, reverse_pointer"]))
p("C04", "Scope ids: validated, kept, compared and never altered by a failed change",
  "Setting a scope id succeeds exactly for texts of at most the configured length without NUL, '%', '/' or (unless configured) white space, and the address then reports exactly that text, and its numeric value exactly when it is a decimal number that fits 32 bits. A failed change reports an error and leaves the address as it was. The bits of the address never depend on the scope id, and scope ids of IPv4 addresses do not exist.",
  ["inputs", "histories"], "every sequence of scope changes, swaps and copies on any address, with texts in every character type",
  "Tests set a handful of scope ids once each; interleavings of failing and succeeding changes and numeric edge values are not reached.",
  a(["ipv6-address.hpp", "base-v6.hpp", "ip-any-address.hpp"],
    [("validation and assignment", "ipv6-address.hpp: ipv6_set_scope::change"), ("numeric value", "ipv6-address.hpp: scope::parse_value")],
    [("scope id", "text attached to an IPv6 address", "ipv6-address.hpp: ipv6_data")],
    ["get_scope_id, to_string, comparison after set_scope_id"]))
p("C05", "Network text: address, prefix length, netmask or hostmask, strictness",
  "A network text is an address optionally followed by a single '/' and either a decimal prefix length within the address width or, for IPv4, a contiguous netmask or hostmask; without '/', the prefix is the full width. In strict mode an address with bits set beyond the prefix is rejected, otherwise those bits are cleared. Every other text is rejected with the error that names its defect and yields the default network.",
  ["inputs"], "every finite text, both strictness modes, both IP versions and the version-detecting parser",
  "Tests use fixed texts; masks (all 2^32), long digit strings and combined defects are not enumerated.",
  a(["ip-network-base.hpp", "base-v4.hpp", "base-v6.hpp"],
    [("slash scan", "ip-network-base.hpp: parse_address_with_prefix"), ("mask parsing", "base-v4.hpp, base-v6.hpp: parse_netmask"), ("strictness", "strict_netmask")],
    [], ["network parse result and error code"]))
p("C06", "A network always describes one aligned block of addresses",
  "Every successfully built network has a netmask of exactly prefix-length leading ones, a hostmask that is its complement, a network address without bits beyond the prefix, a broadcast address with all those bits set, an address count of two to the number of those bits (modulo the count type), and the text 'address/prefix'. Building from an address with a prefix length beyond the address width, or strictly with host bits, is an error and yields a default network. All of this holds however the network came to be where it is: built, parsed, copied, moved, exchanged, sorted, or derived from other networks.",
  ["inputs"], "every address and every prefix length of both versions, including out-of-range ones, however the network was built",
  "Tests check a few prefixes; all prefix lengths times address bit patterns are not enumerated.",
  a(["ip-network-base.hpp", "base-v4.hpp", "base-v6.hpp"],
    [("construction", "ip-network-base.hpp: from_address"), ("derived attributes", "ip-network-base.hpp: broadcast_address, hostmask, addresses_count")],
    [("network address, netmask, prefix length", "the three stored fields stay consistent", "ip-network-base.hpp")],
    ["accessors of a network", "copies, swaps and reorderings of networks"]))
p("C07", "contains, overlaps, subnet and supernet relations agree with address sets",
  "A network contains exactly the addresses between its network and broadcast address; two networks overlap exactly when they share an address; one is a subnet of another exactly when all its addresses belong to the other, and supernet is the converse. The version-independent forms answer false across IP versions.",
  ["inputs"], "every pair of networks and every address, both versions and mixed versions",
  "Pairs of networks number 2^80 and more; tests list about twenty pairs.",
  a(["ip-network-base.hpp", "ip-any-network.hpp"],
    [("containment by masking", "ip-network-base.hpp: contains"), ("interval comparison", "ip-network-base.hpp: overlaps, is_subnet_of")],
    [], ["contains, overlaps, subnet_of, supernet_of"]))
p("C08", "subnets partition a network; supernet is its unique aligned superset",
  "Splitting a network by a prefix difference or to a new prefix yields, in ascending order, all aligned blocks of the new prefix length, each exactly once, disjoint and together covering the network; the reported size is their number. The supernet is the block of the shorter prefix containing the network. Out-of-range or contradictory arguments are reported with the matching error and never crash.",
  ["inputs"], "every network, prefix difference and new prefix of both versions",
  "Tests enumerate a few small splits; large splits, extreme prefixes and argument combinations are not reached.",
  a(["ip-network-base.hpp", "ip-network-iterator.hpp"],
    [("argument checks", "ip-network-base.hpp: subnets, supernet"), ("sequence of blocks", "ip-network-iterator.hpp: subnets_sequence")],
    [("position in the sequence", "block index with wrap-around carry", "ip-network-iterator.hpp: ip_network_iterator")],
    ["subnets, supernet"]))
p("C09", "address_exclude partitions the remainder of a network",
  "Excluding a network from one that contains it yields pairwise disjoint networks that together with the excluded one cover exactly the original, one per prefix length in between, largest first; excluding a network from itself yields nothing. Excluding a network that is not contained is an error. The iteration always terminates, and can be repeated: copies of an iterator visit the same networks whatever happens to the others.",
  ["inputs", "histories"], "every pair of networks of both versions, including ranges touching the first and last address",
  "Tests check four examples; boundary ranges (first or last address of the space) and deep differences are not covered.",
  a(["ip-network-base.hpp", "ip-network-iterator.hpp"],
    [("halving", "ip-network-iterator.hpp: ip_exclude_network_iterator")],
    [("current halves", "the two halves being examined and the current result", "ip-network-iterator.hpp: ip_exclude_network_iterator")],
    ["address_exclude"]))
p("C10", "hosts enumerates exactly the usable addresses of a network",
  "For IPv4 the hosts are all addresses strictly between the network and broadcast address, for IPv6 all addresses but the network address; networks with one or two addresses yield all of them. Size, emptiness, indexing, first, last, forward and reverse iteration all describe this same ascending sequence.",
  ["inputs"], "every network of both versions, every index, both directions",
  "Tests iterate a few small networks; prefixes and blocks at the ends of the address space are not covered.",
  a(["ip-address-iterator.hpp", "ip-network-base.hpp", "ip-any-network.hpp"],
    [("bounds by prefix", "ip-address-iterator.hpp: hosts_sequence")],
    [("begin and end positions", "address plus carry beyond the last address", "ip-address-iterator.hpp: ip_address_iterator")],
    ["hosts"]))
p("C11", "Address iterators obey random-access iterator laws",
  "An iterator over addresses is a position in a sequence of integers: after any sequence of increments, decrements, jumps by positive or negative offsets, copies and reversals, it designates the address at the accumulated position, and equality, order and (modulo the count type) difference of two iterators are those of their positions. This includes one past the last address and one before the first. A reverse iterator visits the same elements in opposite order and converts back to the position it came from. The version-independent iterators behave as the ones they wrap, and can be copied over, exchanged with and compared to iterators of either version: those of different versions are unequal, the IPv4 one before the IPv6 one, and no distance apart.",
  ["histories", "inputs"], "every finite sequence of iterator operations over ranges anywhere in either address space",
  "Laws relate many operations over histories; tests apply each operation once near small ranges.",
  a(["ip-address-iterator.hpp", "ip-any-iterator.hpp"],
    [("offset with carry", "ip-address-iterator.hpp: add, sub, base, reverse")],
    [("offset, carry", "position in the address space", "ip-address-iterator.hpp: ip_address_iterator")],
    ["iterator operators"]))
p("C12", "Network iterators obey random-access iterator laws",
  "An iterator over subnets is a position counted in elements: after any sequence of increments, decrements, jumps by positive or negative offsets, copies and reversals it designates the block at the accumulated index, and equality, order and (modulo the count type) difference of two iterators are those of their indices. This holds for every step size, including a single block spanning the whole address space. The version-independent iterators behave as the ones they wrap, and can be copied over, exchanged with and compared to iterators of either version: those of different versions are unequal, the IPv4 one before the IPv6 one, and no distance apart.",
  ["histories", "inputs"], "every finite sequence of iterator operations over subnets sequences of both versions, concrete and version-independent",
  "Tests apply each operation once on one or two small sequences.",
  a(["ip-network-iterator.hpp", "ip-any-iterator.hpp", "ip-address-iterator.hpp"],
    [("stepping", "ip-network-iterator.hpp: add, sub, base, reverse"), ("dispatch", "ip-any-iterator.hpp")],
    [("position, step", "index of the current block", "ip-network-iterator.hpp: ip_network_iterator")],
    ["iterator operators"]))
p("C13", "Addresses and networks are totally ordered, consistent with equality and hash",
  "Comparison is one strict total order: addresses compare numerically and then by scope id, networks by network address and then by netmask, and across versions every IPv4 value precedes every IPv6 value. All six comparison operators agree with it in every build mode, equal values have equal hashes, and swapping exchanges values exactly. Hence sorting and ordered or unordered containers behave.",
  ["inputs", "configurations"], "all pairs and triples of addresses and networks, in builds with and without three-way comparison",
  "Order laws quantify over triples; tests compare a few hand-picked pairs, and each build mode uses different code.",
  a(["ipv4-address.hpp", "ipv6-address.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp", "byte-array.hpp", "hash.hpp", "fixed-string.hpp"],
    [("less/compare/equals", "ipv4-address.hpp, ipv6-address.hpp"), ("network comparison", "ip-network-base.hpp"), ("hash combination", "hash.hpp")],
    [], ["comparison operators, hash, std::hash, swap"]))
p("C14", "Address and network categories match the IANA special-purpose blocks",
  "Each category predicate (multicast, private, global, reserved, loopback, link-local, site-local, unspecified) is true for exactly the addresses in the documented special-purpose blocks, with IPv4-mapped addresses judged private by their IPv4 address. For a network, the predicate holds exactly when network and broadcast address fall in the same category as documented. The version-independent forms answer as the concrete ones.",
  ["inputs"], "every address and every network of both versions",
  "Boundaries of some fifty blocks in 2^32 and 2^128 addresses; tests try a few addresses per block.",
  a(["ip-networks.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ipv6-address.hpp"],
    [("block tables", "ip-networks.hpp")], [], ["is_multicast, is_private, is_global, is_reserved, is_loopback, is_link_local, is_site_local, is_unspecified"]))
p("C15", "Embedded IPv4 addresses are extracted exactly when present",
  "An IPv6 address yields an IPv4-mapped address exactly when it lies in ::ffff:0:0/96, a 6to4 address exactly when it lies in 2002::/16, and a Teredo pair exactly when it lies in 2001::/32, with the server, and the bit-inverted client, taken from the documented positions. Version-independent addresses answer the same, and an IPv4 address embeds nothing.",
  ["inputs"], "every IPv6 address",
  "A wrong bit outside the tested prefixes goes unnoticed in a few sample addresses.",
  a(["ipv6-address.hpp", "ip-any-address.hpp"],
    [("prefix tests and byte selection", "ipv6-address.hpp: ipv4_mapped, sixtofour, teredo")], [], ["ipv4_mapped, sixtofour, teredo"]))
p("C16", "All character encodings are equivalent and malformed sequences rejected",
  "The same ASCII text gives the same result in every supported character type. Any non-ASCII character is rejected as an unexpected symbol, which the error names, and any sequence that cannot be decoded, or is an over-long spelling of an ASCII character, as wrongly encoded; none is ever decoded to an ASCII character, and nothing is read beyond the end of the text. Strings produced in any character type are the same text.",
  ["inputs"], "every sequence of code units in char, wchar_t, char8_t, char16_t and char32_t",
  "Malformed sequences are combinatorial; tests try a few well-formed non-ASCII characters.",
  a(["unicode.hpp", "fixed-string.hpp"],
    [("decoders", "unicode.hpp: utf8_reader, utf16_reader, utf32_reader"), ("string conversion", "unicode.hpp: string_converter")],
    [("reader position", "next code unit and pending sequence", "unicode.hpp")], ["parse overloads, to_*string"]))
p("C17", "Version-independent objects behave exactly as the version they hold",
  "A version-independent address or network built from a text or a concrete value reports its version and gives, for every operation, the result the concrete object gives. A text is IPv4 if it parses as IPv4 and otherwise IPv6; asking for the other version's value is an error or empty. Operations mixing versions report a version mismatch or answer false, as documented.",
  ["inputs", "histories"], "every address and network of both versions, every operation, every pair of versions",
  "The wrapper forwards some sixty operations by hand; tests check each on one value.",
  a(["ip-any-address.hpp", "ip-any-network.hpp", "ip-any-iterator.hpp"],
    [("dispatch on the stored version", "ip-any-address.hpp, ip-any-network.hpp")],
    [("version tag", "which member is live", "ip-any-address.hpp: ip_address")], ["operations of ip_address and ip_network"]))
p("C18", "Errors are reported the same way by throwing and code-returning forms",
  "For every operation with both forms, the throwing form throws exactly when the other reports an error, with the same code, the documented exception category and a message naming the defect and the offending text. The code-returning form never throws, always overwrites the code, and returns the default value on error. Without exceptions, the throwing form returns that same default value. Setting a scope id on a version-independent IPv4 address, or in a build without scope ids, does nothing in either form.",
  ["inputs", "configurations"], "every failing and succeeding call, any previous content of the error code, builds with and without exceptions",
  "Each error is tested with one message in one form; stale codes, long texts and other builds are not.",
  a(["errors.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp"],
    [("raising", "errors.hpp: raise_error"), ("both forms", "ip-address-base.hpp, ip-network-base.hpp")],
    [("error code", "out-parameter overwritten by each call", "errors.hpp: error_code")], ["exceptions and error codes"]))
p("C19", "Stream insertion, extraction and manipulators affect exactly the next value",
  "Inserting an address or network prints its text in the format selected for that one value, upper-cased if the stream is so set except for the scope id, after which the default format applies again. Extraction reads one white-space-delimited token, uses the selected strictness once, and on a malformed token sets the fail state and yields the default value. No operation leaks a selection into another stream or a later value.",
  ["histories", "inputs"], "every sequence of manipulators, insertions and extractions on narrow and wide streams",
  "One-shot state only shows in sequences of operations; tests use one manipulator before one value.",
  a(["ip-address-base.hpp", "ip-network-base.hpp", "ip-any-address.hpp", "ip-any-network.hpp"],
    [("per-stream words", "ip-address-base.hpp: stream_index; ip-network-base.hpp: network_strict_index")],
    [("pending format and strictness", "one-shot selection stored in the stream", "ip-address-base.hpp, ip-network-base.hpp")], ["operator<<, operator>>, manipulators"]))
p("C20", "128-bit integer arithmetic is exact modulo 2^128",
  "Addition, subtraction, multiplication, negation, increments, bitwise operations and shifts of the 128-bit unsigned integer equal the mathematical results modulo 2^128, with shifts by the width or more giving zero. Quotient and remainder satisfy dividend = quotient * divisor + remainder with remainder below the divisor, and division by zero gives zero with the dividend as remainder. Compound assignments and mixed built-in operands agree with the plain operators.",
  ["inputs"], "all pairs of 128-bit operands and all shift counts",
  "2^256 operand pairs; carries between halves and long-division corrections need specific operands.",
  a(["uint128.hpp"], [("multiplication and division", "uint128.hpp: big_mul, divide"), ("carries", "uint128.hpp: operator+, operator-, operator<<, operator>>")], [], ["arithmetic operators"]))
p("C21", "128-bit integer comparison and conversions are value-preserving",
  "Comparison of 128-bit integers is numeric order, also against built-in integers. Conversion from a built-in integer sign-extends, conversion to one keeps the low bits, and conversion to bool is non-zero. Conversion from double or float truncates toward zero, with negative values and not-a-number giving zero and values of 2^128 or more the largest integer; conversion to double is the nearest double. The other floating-point conversions go through double. Limits and hash are consistent with these values.",
  ["inputs"], "all 128-bit values, all built-in integers, all floating-point numbers",
  "Tests convert a few values; rounding and clamping boundaries are not covered.",
  a(["uint128.hpp"], [("conversions", "uint128.hpp: constructors, conversion operators, from_double"), ("comparison", "uint128.hpp")], [], ["conversions, comparison operators, numeric_limits"]))
p("C22", "128-bit integer text round-trips in every base and stream",
  "Printing gives the shortest digits of the value in decimal, hexadecimal or octal, whatever the global locale; printing to a stream uses the stream's base, case, width, fill and alignment. Parsing text of digits in the chosen base gives their value modulo 2^128, and any other character makes the result empty or, on a stream, sets the fail state. Printing then parsing any value returns it, in every string type.",
  ["inputs", "histories"], "all values, bases, flag combinations and digit strings",
  "Base, flag and value combinations are sampled by a handful of tests.",
  a(["uint128.hpp"], [("digits", "uint128.hpp: to_string, from_string"), ("streams", "uint128.hpp: operator<<, operator>>")], [], ["to_string, from_string, stream operators"]))
p("C23", "Integers, bytes and addresses convert losslessly in network byte order",
  "Building an address from an unsigned integer and reading it back gives the integer, the bytes are its big-endian representation, and building from bytes gives those bytes with missing ones zero and extra ones ignored. The conversions agree with each other and with the text form for every value. Byte swapping reverses byte order.",
  ["inputs"], "every 32-bit and 128-bit value and every byte string",
  "Tests convert a few constants.",
  a(["ipv4-address.hpp", "ipv6-address.hpp", "ip-address-base.hpp", "endian.hpp", "base-v4.hpp", "ip-any-address.hpp"],
    [("packing", "base-v4.hpp: ip_from_uint32, ip_to_uint32; ipv6-address.hpp: from_uint, to_uint"), ("byte swap", "endian.hpp")], [], ["from_uint, to_uint, from_bytes, bytes, data"]))
p("C24", "Fixed strings, byte arrays and optionals behave as their abstract values",
  "A fixed string is the text up to the first NUL, a byte array is a fixed sequence of bytes, and an optional is a value or nothing: indexing, bounds-checked access, iteration in both directions, comparison, copying, swapping, hashing (equal texts hash alike) and value access all agree with that abstract value after any sequence of operations. Access beyond the capacity of a non-empty fixed string or byte array throws std::out_of_range where exceptions are available.",
  ["histories", "inputs"], "every sequence of operations on these containers and all contents",
  "Tests exercise each member once.",
  a(["fixed-string.hpp", "byte-array.hpp", "optional.hpp"],
    [("element access and comparison", "fixed-string.hpp, byte-array.hpp"), ("value or nothing", "optional.hpp")],
    [("length, bytes, has value", "abstract value of each container", "fixed-string.hpp, byte-array.hpp, optional.hpp")], ["container members"]))
p("C25", "Compile-time evaluation gives the same results as run time",
  "Every operation usable in constant expressions gives the same value when evaluated by the compiler as when executed, for parsing, formatting-independent queries, comparison, network algebra, iteration and 128-bit arithmetic. Literals equal the parsed text. Texts rejected at run time are not accepted in constant expressions.",
  ["inputs", "configurations"], "every constant expression over the library's operations",
  "Constant evaluation takes other code paths for some operations; tests use a few constants.",
  a(["ip-address-base.hpp", "ip-network-base.hpp", "endian.hpp", "uint128.hpp", "config.hpp"],
    [("constant-evaluation branches", "config.hpp: is-constant-evaluated; endian.hpp; uint128.hpp")], [], ["constexpr variables, literals"]))
p("C26", "Every build configuration gives the same answers",
  "For the same inputs the library gives identical results in every supported language standard, compiler, way of using it (headers or the C++20 module) and configuration option that does not by its documentation change behaviour. Options that do (scope length or absence, spaces in scope ids, treating plain char as UTF-8, no exceptions) change exactly what they document.",
  ["configurations", "inputs"], "C++11 to C++23, gcc and clang, with each configuration macro",
  "The suite runs in a few builds and compares each with constants, never builds with each other or with most options.",
  a(["config.hpp", "ip-address-base.hpp", "ip-network-base.hpp", "ipv6-address.hpp", "uint128.hpp", "unicode.hpp"],
    [("feature selection", "config.hpp")], [], ["all results"]))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
