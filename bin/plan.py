"""Which processes each property's check runs: number of plain processes and of
processes under the race detector with injected yields."""
PLAN = {
    'C01': dict(plain=4),
    'C02': dict(plain=4, race=4),
    'C03': dict(plain=4, race=4),
    'C04': dict(plain=4, race=2, level='fault_enumeration'),
    'C05': dict(plain=4, race=2),
    'C06': dict(plain=4, race=4),
    'C07': dict(plain=4, race=2),
    'C08': dict(plain=4, race=4),
    'C09': dict(plain=4, race=2),
    'C10': dict(plain=4, race=2),
    'C11': dict(plain=4, race=2),
    'C12': dict(plain=4, race=2),
    'C13': dict(plain=4, race=2),
    'C14': dict(plain=4, race=2),
    'C15': dict(plain=4, race=2),
    'C16': dict(plain=4, race=2),
    'C17': dict(plain=4),
    'C18': dict(plain=4, race=2),
    'C19': dict(plain=4, race=4),
    'C20': dict(plain=4, race=2),
    'C21': dict(plain=4, race=2),
    'C22': dict(plain=4, race=2),
    'C23': dict(plain=4),
    'C24': dict(plain=2, race=1, commands=['tricorderclient', 'tricorderdemo']),
}

# Deciding technique, and what the level rests on.
TECH = {
    'C01': ('trace monitor: random call histories against a reference tree, every interface read back',
            'Random histories of registry calls on the real package, each read compared with an executable reference; not exhaustive.'),
    'C02': ('linearizability checking of recorded histories; race detector with injected yields',
            'Recorded concurrent histories decided by porcupine and by life-span monitors; schedules are sampled (plain, and race detector with yields injected between statements).'),
    'C03': ('online monitor of update functions and callbacks under scheduled and free requests; race detector',
            'Requests advanced one step at a time in random schedules against an exact reference, plus free-running stress; schedules are sampled.'),
    'C04': ('fault injection at every callback and every byte written, followed by monitored requests; race detector and several clients at once',
            'For each generated world every panicking position and every failing byte is enumerated; worlds and interfaces are sampled.'),
    'C05': ('reference monitor recomputing statistics from the values held; race detector and several clients at once',
            'Random histories of changes compared with statistics recomputed exactly from the multiset of values.'),
    'C06': ('offline checker of concurrent snapshots (order, conservation); race detector with injected yields',
            'Each goroutine owns ranges so that a snapshot tells which changes it includes; schedules are sampled.'),
    'C07': ('reference monitor of ranges with boundary probing; race detector and several clients at once',
            'Random parameters; each endpoint and its floating point neighbours placed and located.'),
    'C08': ('aliasing monitor that scribbles over slices; register linearizability of histories; race detector',
            'Random element types, slices and histories; concurrent histories decided by porcupine.'),
    'C09': ('differential monitor: RPC replies against the values the program holds; race detector and several clients at once',
            'Random metrics of every kind and form over a real gob connection.'),
    'C10': ('differential monitor: JSON answers against RPC replies and exact decimal forms; race detector and several clients at once',
            'Random metrics of every kind read over both interfaces.'),
    'C11': ('round trip monitor with exact decimal arithmetic; race detector and several clients at once',
            'Random and boundary durations, times, units and texts against big integer arithmetic.'),
    'C12': ('round trip monitor with exact arithmetic; type table cross check; race detector and several clients at once',
            'Random and boundary values of every type; tables are checked in full.'),
    'C13': ('page monitor: every token of text and HTML pages accounted for; race detector and several clients at once',
            'Random trees with hostile names and texts; pages are parsed strictly and links followed.'),
    'C14': ('reading back displayed values and comparing with the exact ones; race detector and several clients at once',
            'Random and boundary integers, durations and times of every type and unit.'),
    'C15': ('listing monitor with non-finite values injected; race detector and several clients at once',
            'Random placements and changes of NaN and infinities on all interfaces.'),
    'C16': ('acceptance monitor over generated Go types (reflection), all interfaces read; race detector and several clients at once',
            'Types and callback signatures generated with reflection; a refused one must leave no trace.'),
    'C17': ('flag monitor in child programs with random flag sets',
            'Fresh processes with random flags, types, units and later changes.'),
    'C18': ('bracketing monitor: operating system figures before and after each read; race detector and several clients at once',
            'Child programs that use CPU, memory, descriptors and goroutines in random ways.'),
    'C19': ('register linearizability of recorded histories; race detector',
            'Recorded concurrent histories of sets and requests decided by porcupine.'),
    'C20': ('progress monitor with gates in callbacks, update functions and connections; goroutine dumps',
            'A verdict of not completing needs a goroutine dump that shows the operation blocked in the code under test.'),
    'C21': ('trace monitor of timestamps and group ids against recorded call windows; race detector',
            'Random histories and concurrent runs; each timestamp compared with the window of the call that made the value.'),
    'C22': ('protocol monitor over loopback connections with pipelined, hostile, malformed and cut-off requests',
            'Random requests on raw connections; every answer is parsed and compared with the tree.'),
    'C23': ('resource monitor: heap, goroutine and descriptor growth over long runs; weak pointers on objects to be let go',
            'Growth has to continue over four batches of doubling size to count; objects are watched one by one through garbage collections. Kinds of operations are enumerated, their arguments sampled.'),
    'C24': ('end to end monitor of the two programs: recorded replies against what is shown; race detector; faults injected',
            'Random replies, errors and cut connections given to the real client; the real demo read over every interface.'),
}
