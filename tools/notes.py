NA = {}
COMMON = 'Every obligation is regenerated from /repo\'s current source on each run. Trusted: CBMC 6.11 (front end, DFCC instrumentation, SAT back ends), the contracts in /verif/contracts, the 64-bit host data model; the assumptions of each unit are in the evidence file. Where the deciding proof times out the job is reported as bounded, never as proved.'
NOTES = {
'C01': 'Proved per function for any buffer, head and tail position, capacity up to 1 MB and any count (byte contents by an arbitrary watched byte); block operations loop-free over memcpy by its contract.',
'C03': 'Proved for several declared instances (element type, capacity: powers of two); arbitrary indexes, induction over operations.',
'C04': 'Proved for several declared instances; arbitrary fill level, induction over operations.',
'C05': 'Link operations proved on an arbitrary neighbourhood (frame: nothing else written); iteration macros proved for lists of any length by loop invariants over their expansion.',
'C06': 'Every table entry, every byte step, and messages of any length up to 2^40 bytes by loop invariants found and checked by the loop engine (base, step and exit obligations).',
'C07': 'Proved, all functions and macros.',
'C08': 'Proved, one call from an arbitrary state plus induction lemmas over histories.',
'C09': 'Proved, one call from an arbitrary state plus induction lemmas over histories.',
'C10': 'One key proved from every reachable state; the search over a list and the resetting proved for lists of any length by loop invariants.',
'C11': 'Proved for lists of any length and elements of any size by loop invariants (one arbitrary watched element, memcmp/memcpy on whole elements by contract; callbacks change nothing the library sees); the bounded lemmas are kept as a cross-check and listed apart.',
'C12': 'Proved for MAYBE(int32_t) and updates of up to 2^40 bytes.',
'C13': 'Proved for every type and every step count (floating point: the product of step and count taken as some function of the two); range check and reset for lists of any length by loop invariants.',
'C14': 'Proved for lists of any length by loop invariants; a runtime callback may change anything of its own parameter.',
'C15': 'Proved for all ten types.',
'C16': 'Proved for the configuration of test/gel_conf.h; induction over the ring invariant.',
'C17': 'Proved for a fixed number of entries (static configuration), every instant.',
'C18': 'Proved for a fixed number of entries (static configuration).',
'C19': 'Proved, all functions, induction lemmas over sequences.',
'C20': 'Proved for each configured timestamp type and for every timer function.',
'C21': 'Proved, including the recovery argument by induction over writes; driver by its contract.',
'C22': 'Positions, counts and placement proved for every capacity and event size (the product of position and event size taken as some commutative function).',
'C23': 'Proved for an instance with three states.',
'C24': 'Proved per navigation function over an arbitrary stack; the `#if 0` around the header is turned on mechanically (the only thing the extraction changes).',
}
