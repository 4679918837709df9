"""Claimed properties: technique and level note."""
_T = 'runtime monitoring: '
_ORACLE = 'online oracle (values stated by the generator, arbitrated by an independent reference parser) over executions of the real library'
_N = ('Inputs are generated, enumerated or mutated, so the absence of violations is evidence, not proof. '
      'The oracle was written from the RFCs, independently of the library; where the RFCs leave a choice it says "unspecified" and nothing is concluded. '
      'Trusted: the reference parser (two independent models must agree before a violation is reported), the compiler and the standard library.')
CLAIMS = {p: (_T + _ORACLE, _N) for p in 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C22 C23'.split()}
CLAIMS['C01'] = (_T + 'AddressSanitizer, MemorySanitizer, valgrind, Miri (Tree Borrows), guard pages and junk around exact buffers, UB-precondition checks of the standard library, and a monitor of the location and UTF-8 validity of every returned slice',
                 'Evidence over generated, truncated, mutated and enumerated inputs; Miri runs a set of inputs that covers every edge of the library the workloads reach. Not a proof; aliasing is judged under Tree Borrows, where the merging of adjacent slices of the same buffer is accepted.')
CLAIMS['C02'] = (_T + 'crash, panic, overflow-check, stack-limit (1 MB threads) and CPU-limit monitors in debug-checked and release builds over hostile and truncated inputs',
                 'Evidence over generated inputs up to 200 KB; a dead or endless process is attributed to its input by running that input alone.')
CLAIMS['C03'] = (_T + 'counting of the control-flow edges taken (compiler instrumentation of the library) and of the bytes allocated, at several sizes of scaled inputs; instructions counted by callgrind for suspects',
                 'Deterministic counts, no clock decides. Each family is compared at n and 16n and confirmed at 2n, 8n and 32n; work inside of the standard library is seen through a CPU-time screen followed by callgrind only. Evidence for the families explored, not a proof of linearity.')
CLAIMS['C18'] = (_T + 'the same oracle in many feature configurations of the real library (pairwise covering and random sets), differential between configurations, and compilation of many more',
                 'All single features, all but one, and random sets are compiled; the sets that are run cover pairs of features as far as their number allows. ' + _N)
CLAIMS['C19'] = (_T + 'monitor of the address of every returned slice and counting allocator, over templates of verbatim values at many lengths and places',
                 'What must be borrowed is stated by the templates; evidence over the values explored.')
CLAIMS['C21'] = (_T + 'differential monitor of repeated executions (addresses, alignments, neighbours, history, threads, entry points, environment, clock, process, files), ThreadSanitizer, read-only mappings and canaries',
                 'Schedules are those the stress produces; the library has no shared mutable state in its sources today, and ThreadSanitizer would report one that races.')
CLAIMS['C24'] = (_T + _ORACLE + ', and an offline checker over the recorded readings of the same messages by builds with and without the feature', _N)
LEFT = {}
