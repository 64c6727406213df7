import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ state machine checked with TLC; TLC-generated behaviours replayed on the real code, recorded traces validated by TLC'
def n(what, not_):
    return f'{what} Assumes: the harness reports results faithfully (identity of keys and values is tracked by unique integers). Not covered: {not_}'
C = {
 'C01': n('Every lookup result recorded from the real hash-keyed collections is a step of the specification, for sizes 0..70000 and 13 adversarial hash functions plus hash tables enumerated by TLC.', 'sizes and hash functions beyond those enumerated.'),
 'C02': n('Every length 0..40 (thorough: to 300 and powers of two) with every gap probed, for three key types.', 'lengths not enumerated.'),
 'C03': n('All 20 integer/NonZero types and five enums, contents at both ends, in the middle and across the whole range, all layouts.', 'key sets not enumerated.'),
 'C04': n('String collections over contents that reach every string hashing strategy, near-miss probes.', 'strings not enumerated.'),
 'C05': n('All sequences of up to five entries over three keys, and long shadowed inputs, through every construction route.', 'sequences not enumerated.'),
 'C06': n('Every iterator kind of every representation stepped with size_hint/len/clone/Debug checked at every position, plus random walks of the specification.', 'interleavings beyond the walks.'),
 'C07': n('All mutation routes interleaved with observation of every live collection.', 'histories beyond those generated.'),
 'C08': n('Every request array of up to four of five keys, one repetition at every pair of positions up to eight.', 'longer arrays.'),
 'C09': n('Every pair of subsets of four elements and random larger pairs, over every pair of set types.', 'larger pairs not enumerated.'),
 'C10': n('Every pair of subsets of four elements, equal/one value different/one key different at every size, over pairs of types.', 'larger pairs not enumerated.'),
 'C11': n('Round trips and seven deserialization routes for every representation, malformed documents.', 'formats other than JSON and a serde value stream.'),
 'C12': n('Programs realised from descriptors that TLC enumerates from the specification (macro x form x literal/computed/mixed keys x key type x size x repetition) are compiled against the working tree; each must compile and every observation of the resulting collection must be a step of the specification.', 'programs not among the sampled descriptors; block, closure and array expressions as entries (the macro crate refuses them).'),
 'C13': n('The real emitter is run on entries realised from descriptors that TLC enumerates (entry kind x map/set x output form x key type x size x repetition x const/symbol/alias/visibility settings); its output is compiled and observed as for C12.', 'settings and sizes not among the sampled descriptors.'),
 'C14': n('Index of every value of 8-bit types, samples (thorough: all 16-bit values) of the wider ones, enum variants.', 'wide-type values not sampled.'),
 'C15': n('Counts of live values and keys recorded after every kind of call, drop and partial consumption.', 'histories beyond those generated.'),
 'C16': n('Construction limits enumerated around 255 and 65535, contiguity over all subsets of nine keys; macro, derive and emitter inputs enumerated by TLC with the verdict the specification gives.', 'limits of 2^32 entries and beyond.'),
 'C17': n('Every trait view of every representation and of the foreign std/hashbrown collections.', 'third-party implementations of the traits.'),
 'C18': n('Sessions with keys that break their laws in every single way and in combinations, and that panic at every point of every operation, run on an address-sanitized build with unsafe-precondition checks, a part of them under Miri (tree borrows); what they report must be a behaviour of the specification Wild, and undefined behaviour is an event no action of it explains.', 'the documented-as-private constructors of inline collections with made-up tables and user-defined magnitudes; undefined behaviour that neither the sanitizer, the precondition checks, Miri nor the reported identities show.'),
}
NA = {}
json.dump({'claimed': {k: {'technique': T, 'note': v} for k, v in C.items()}, 'not_applicable': NA}, open(f'{V}/bin/claimed.json', 'w'), indent=1)
