# P(id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], ...)
SCH = ["schedules", "inputs", "configurations"]
P("C01", "channel is an exactly-once FIFO queue under every interleaving",
  """Every element whose push reports success is delivered by exactly one pop, try_pop or iteration step, nothing is delivered that was not pushed, and elements come out in the order of an
  atomic FIFO queue. The results of all concurrent operations (push, emplace, try_push, try_emplace, pop, try_pop, iteration, close, closed) are explained by one sequential order of
  operations on such a queue that respects real time.""",
  SCH + ["histories"], "all interleavings of any number of producers, consumers and closers, all capacities, all element types, all operation mixes",
  "the tests run a handful of threads on whatever schedule the OS picks and compare totals; no test controls an interleaving or checks an order of results",
  ["channel.hpp"], [("single mutex around the deque, closed flag inside it", "channel.hpp: emplace/try_emplace/pop/try_pop")])
P("C02", "closing a channel refuses new elements, keeps accepted ones, frees all waiters",
  """Once close() has returned, every push reports failure and leaves its argument as it was, every element accepted before is still delivered, and pop and iteration report the end exactly
  when the channel is closed and empty. Every thread blocked in push or pop when close() happens returns.""",
  SCH + ["histories"], "close (once or repeatedly, from any thread) at every point of every interleaving of producers and consumers",
  "tests close at one fixed moment, after or before the traffic; a close that lands between a waiter's check and its wait is not reachable on purpose",
  ["channel.hpp"], [("close() sets the flag under the mutex and notifies both condition variables", "channel.hpp: close")])
P("C03", "channel never holds more than its capacity",
  """At no moment does a channel hold more than its capacity of elements that were accepted and not yet taken; a push into a full channel waits and a try_push into a full channel fails and leaves the channel and its argument unchanged.""",
  SCH, "all interleavings of several producers and consumers, every capacity including 1",
  "tests check a full channel from one thread; the bound must hold when several producers are released by one slot",
  ["channel.hpp"], [("wait predicate on size against capacity", "channel.hpp: emplace/try_emplace")])
P("C04", "no lost wakeup: channel operations that can proceed do proceed",
  """Whenever no thread of the program can run, no pop is blocked while an element is available and no push is blocked while there is room. This holds also under spurious wakeups and whatever waiter a notification wakes.""",
  ["schedules", "fault_sequences"], "all interleavings, spurious wakeups and wake orders, any mix of blocking and non-blocking operations and iteration",
  "a lost wakeup shows only as a hang on rare interleavings; the tests have no control of schedules or wake order and no way to tell slow from stuck",
  ["channel.hpp"], [("notify_one per state change on two condition variables", "channel.hpp: emplace/pop/try_*")])
P("C05", "channel survives throwing elements and failing allocations",
  """When constructing, copying or moving an element or allocating memory fails inside a channel operation, the exception reaches the caller of that operation, the channel behaves as if that operation had not
  happened, no other element is lost, duplicated or leaked, and no other thread stays blocked because of it. Operations declared non-throwing never terminate the program because an element's move throws.""",
  ["fault_sequences", "schedules"], "every position of the first and further faults (construction, copy, move, allocation) in every operation, under every interleaving",
  "no test uses a throwing element or a failing allocation", ["channel.hpp"],
  [("element constructed/moved under the lock", "channel.hpp: emplace/try_emplace/pop/try_pop, iterator")])
P("C06", "channels publish elements without data races",
  """All concurrent use of one channel or exchange_channel through its documented thread-safe operations is free of data races: what a producer wrote before pushing is visible to whoever receives the element, what was written before close() to whoever finds the channel closed, and no
  memory is used after its release. close() and the destruction that follows joined users are covered too.""",
  ["schedules"], "all interleavings and all values a relaxed or acquire load may legally return, for channel and exchange_channel",
  "the tests are not run under a race detector, and a detector only sees the schedules that happen; a weakened memory order passes every test on x86",
  ["channel.hpp", "exchange_channel.hpp"], [("mutex around the state, atomic closed flag", "channel.hpp, exchange_channel.hpp: closed_")])
P("C07", "exchange_channel always holds the latest value and delivers each at most once",
  """exchange_channel behaves as one atomic slot: a push replaces the value that was not taken yet, a pop takes the latest value, a value is delivered at most once, and the most recently pushed value is never dropped.
  The results of all concurrent operations are explained by one sequential order of operations on such a slot that respects real time.""",
  SCH + ["histories"], "all interleavings of producers, consumers and closers, all element types",
  "tests sample a few OS schedules and cannot check an order of results", ["exchange_channel.hpp"], [("optional slot behind one mutex", "exchange_channel.hpp: emplace/pop/try_pop")])
P("C08", "exchange_channel: no lost wakeup, close frees every waiter and keeps the value",
  """Whenever no thread can run, no pop is blocked while a value is available or after close() returned; after close() pushes report failure, leaving their argument as it was, and the value accepted before is still delivered exactly once before pops report the end.""",
  ["schedules", "fault_sequences"], "all interleavings, spurious wakeups, wake orders and moments of close",
  "hangs need rare interleavings that tests cannot force", ["exchange_channel.hpp"], [("notify after store; notify_all on close", "exchange_channel.hpp: emplace/close")])
P("C09", "exchange_channel survives throwing elements",
  """When constructing or moving an element fails inside an exchange_channel operation the exception reaches that caller, the value that was available before stays available (element types with non-throwing moves; otherwise
  a failed push may drop only the value it was replacing), nothing is delivered twice or leaked, and no other thread stays blocked because of it.""",
  ["fault_sequences", "schedules"], "every fault position in every operation under every interleaving",
  "no test uses a throwing element type", ["exchange_channel.hpp"], [("value built before it replaces the slot's content", "exchange_channel.hpp: emplace/pop/try_pop")])
P("C10", "mutex<T>: exclusive access, released exactly when the last guard owner goes",
  """At most one guard gives access to a mutex's value at any time, the guard gives access to that mutex's own value, which started as the one the mutex was given, and every critical section sees the effects of all earlier ones. Moving, assigning, swapping or unwinding
  guards releases each lock exactly once and at the moment its owner gives it up; try_lock never blocks and fails only when somebody else holds or wants the lock, or the mutex type itself failed.""",
  ["schedules", "fault_sequences", "histories"], "all interleavings of lock, try_lock, guard moves, assignments, swaps and exceptions over several mutexes, with lock errors and spurious try_lock failures, for std::mutex and user mutex types",
  "tests lock from one thread or count increments on one schedule; no lock error, guard assignment across mutexes or custom mutex is tested",
  ["mutex.hpp"], [("guard owns a unique_lock on the mutex", "mutex.hpp: mutex_guard, lock, try_lock")])
P("C11", "shared_mutex<T>: writers exclude everyone, readers share and see whole updates",
  """A writer guard never coexists with any other guard of the same shared_mutex, reader guards do coexist, and a reader sees the value after some whole number of completed writer sections. Moving, assigning, swapping
  or unwinding guards releases exactly the mode and lock they own, and try operations fail only on a real conflict or a failure of the mutex type.""",
  ["schedules", "fault_sequences", "histories"], "all interleavings of shared and exclusive locking, guard moves, assignments, swaps and exceptions, with lock errors, for std::shared_mutex and user types",
  "tests use one schedule and a few guards", ["shared_mutex.hpp"], [("guard owns a unique_lock or shared_lock", "shared_mutex.hpp: shared_mutex_guard, lock*, try_lock*")])
P("C12", "limit_allocator never exceeds its budget and never loses any of it",
  """The bytes outstanding at the upstream allocator never exceed the limit shared by all copies and rebinds of a limit_allocator, an allocation is refused only if the budget is insufficient or upstream fails, and a refused or failed
  allocation costs nothing. After everything is deallocated the whole budget, and no more, is available again; copies, moved-from and rebound allocators and containers using them stay usable and equal.""",
  ["schedules", "fault_sequences", "inputs", "configurations"], "all interleavings of allocating threads, upstream failures at any allocation, weak compare-exchange failures, stale loads, both syncness policies, stateless and stateful upstreams",
  "tests allocate from one thread with an upstream that never fails", ["limit_allocator.hpp"],
  [("reserve before upstream allocation, return on failure", "limit_allocator.hpp: allocate"), ("atomic reservation loop", "limit_allocator.hpp: limit_allocator_control_block<sync>")])
P("C13", "pool_allocator: disjoint, aligned, reusable blocks even when memory runs out",
  """Every block handed out by a pool is non-null, aligned for any object of its size, disjoint from every other live block and unchanged until it is given back; freed blocks of a bucket serve later requests of that bucket
  even when the system refuses memory; a refused request throws and changes nothing, an impossible one is refused; destroying the pool returns all its memory. Copies, rebinds and moved-from pool_allocators stay usable, keep
  the pool alive and compare equal exactly if they share it.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every sequence of allocations and deallocations of every size, every bucket configuration, allocation failures at every point",
  "tests allocate a few fixed sizes and memory never runs out", ["pool_allocator.hpp"],
  [("first bucket that fits, null result turned into bad_alloc", "pool_allocator.hpp: pool::allocate/deallocate"), ("shared ownership of the pool", "pool_allocator.hpp: pool_allocator")])
P("C14", "polymorphic_allocator routes every block to the allocator it holds",
  """A polymorphic_allocator always holds exactly the alternative (and its state) it was given, through copies, moves, assignments, swaps, rebinds and select_on_container_copy_construction; every allocation and deallocation goes
  to that alternative with the same size, also inside containers; two of them are equal exactly if they hold equal alternatives; a failing alternative is reported unchanged and costs nothing. A propagation trait on which all alternatives
  agree has their value, and with several alternatives is_always_equal is false.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every history of operations on allocators and containers, one to three alternatives, stateful, non-trivial and always-equal, every combination of propagation traits, allocation failures everywhere",
  "tests use two stateless alternatives in a few operations", ["polymorphic_allocator.hpp", "variant2.hpp"],
  [("visit dispatches to the active alternative", "polymorphic_allocator.hpp: allocate/deallocate"), ("rebinding constructor maps the active index", "polymorphic_allocator.hpp: converting constructor")])
P("C15", "Offset-pointer data survives moving to another address",
  """Data structures that live in a memory region together with everything they point to, built with offset_ptr_stl_allocator (directly, or below polymorphic_allocator or limit_allocator), keep their content and stay fully usable
  when the region is moved to another address, at any point between operations, and no operation ever refers to the old address. The wrapper otherwise behaves exactly like its upstream allocator: same blocks, state, equality and traits.""",
  ["histories", "fault_sequences", "configurations"], "every history of operations on strings, vectors, lists, maps, variants in the region, relocations at every point, a region that runs full, failing allocations",
  "tests never move memory that holds offset pointers", ["polymorphic_allocator.hpp", "static_string.hpp"],
  [("pointer is boost::interprocess::offset_ptr", "polymorphic_allocator.hpp: offset_ptr_stl_allocator"), ("fancy pointer kept as data_", "static_string.hpp: basic_static_string")])
P("C16", "static_string equals a reference string under failing allocators",
  """Every operation on a basic_static_string of any character type gives the text, size, comparison and iteration results of std::basic_string, with all characters copied completely; each block is given back exactly once, to an
  allocator equal to the one it came from, with its exact size; copies and assignments use the allocator the traits prescribe; a refused allocation leaves every string unchanged and leaks nothing.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every text (including embedded zero characters), every operation history over several strings and unequal allocators, every propagation trait combination, allocation failure at every point",
  "tests use char, std::allocator and memory that never runs out", ["static_string.hpp"],
  [("allocation before release, swap of the result", "static_string.hpp: copy_assign_from_other"), ("propagation branches of the assignments", "static_string.hpp: operator=")])
P("C17", "flex_array equals a reference array in every mode when elements or sources fail",
  """A flex_array of static, limited or dynamic extent has exactly the elements, in order, that construction, assignment, resizing, swapping, moving and conversion prescribe; size, spans, iteration in both directions and
  comparison (which must not fail) agree. Sizes beyond the maximum are refused with an exception. When an element, an input source or an allocation fails, the exception reaches the caller, the array keeps a valid state and
  every element is destroyed exactly once; the program is never terminated.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every operation history over arrays of all three modes, ranges and iterators of every category, failing element construction, copy, move, sources and allocations at every point",
  "tests use int-like elements that never fail and a few fixed sizes", ["flex_array.hpp"],
  [("inner storage chosen by mode", "flex_array.hpp: flex_array_inner"), ("size set before elements are written", "flex_array.hpp: converting and iterator constructors")])
P("C18", "variant2 behaves as std::variant when its alternatives fail",
  """A variant2 always reports exactly the alternative it holds: index, holds_alternative, get, get_if, visit, formatting, comparison and hashing agree, and get of another alternative throws. Alternatives are constructed
  and destroyed exactly once, by their own special member functions; as in std::variant they are copies of the given values or direct-initialized from the given arguments, and emplace replaces the old object. A failing construction, assignment, emplace or visitor reports its exception and leaves the old value or a valueless variant, never anything else; a valueless variant can be
  assigned, compared, hashed, visited (throws) and destroyed.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every history of operations over several variants, every combination of throwing, trivial, partly trivial and integral alternatives, failures at every point",
  "tests use std::string and int; only few tests have a throwing alternative", ["variant2.hpp"],
  [("discriminant set around destruction and construction", "variant2.hpp: operator=, emplace"), ("trivial and non-trivial overloads by requires", "variant2.hpp")])
P("C19", "inplace_polymorphic holds exactly the object it was given, or none",
  """An inplace_polymorphic holds exactly one object, of the dynamic type and value that construction, copy, move, assignment or emplace prescribe, or is valueless; access through every operator reaches that object by virtual dispatch, and access to a
  valueless one throws. Copies and moves use copy_to and move_to of the dynamic type. Objects are suitably aligned, constructed and destroyed exactly once, also when they are trivially destructible. An operation that fails reports the exception
  and leaves the target valueless (assignment, emplace) and the source as it was; assigning from a valueless one makes the target valueless.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every history of operations over several containers, derived types of any size, alignment, trivial or throwing, failures at every construction, copy and move",
  "tests use few types and one failure", ["inplace_polymorphic.hpp"],
  [("drop before constructing, valueless flag", "inplace_polymorphic.hpp: drop, DICE_TEMPLATELIBRARY_DETAIL_INPLACEPOLY_TRY"), ("virtual copy_to/move_to into the storage", "inplace_polymorphic.hpp: copy_from, move_from")])
P("C20", "scope guards run exactly when their scope ends the way they wait for",
  """A guard runs its function exactly once at the end of its scope, in reverse order of creation: DICE_DEFER always, DICE_DEFER_TO_FAIL exactly if the scope is left by an exception, DICE_DEFER_TO_SUCCESS exactly if it is not. This holds for scopes
  that run while other exceptions are in flight or being handled, inside guard functions, after early returns and rethrows. A success guard may throw, then the scope has failed for the guards before it. A guard whose creation
  fails never runs.""",
  ["inputs", "histories", "fault_sequences"], "every program of nested scopes, guards, throws, handlers, rethrows and returns, guards created by macro or function from copied or moved functions that may fail",
  "tests cover single scopes; guards used during unwinding, in handlers and inside other guards are not tested", ["defer.hpp"],
  [("uncaught exception count compared with the one at creation", "defer.hpp: ScopeExitGuard")])
P("C21", "DICE_SANDBOX reports how the sandboxed code ended, or that it could not tell",
  """Sandboxed code runs exactly once, in a process of its own, and the result says how it ended: success exactly if it returned nothing or zero, failure for any other exit code, Aborted for an exception or abort, and the signal's number if a signal killed it,
  whatever handlers, ignored or blocked signals the caller has installed, also for nested sandboxes. Interrupted or stopped waiting changes nothing. If the process cannot be created or waited for, the call throws std::system_error
  with the system's error, and code whose process could not be created does not run.""",
  ["inputs", "fault_sequences", "configurations"], "every way code can end, every signal, every signal setup of the caller, interrupted waits, failing fork and waitpid, stopped children, nested sandboxes",
  "tests cover a few signals with the default setup and no failing system call", ["sandbox.hpp"],
  [("wait loop and status mapping", "sandbox.hpp: operator+"), ("signal state reset in the child", "sandbox.hpp: clear_all_signal_handlers"), ("noexcept invocation", "sandbox.hpp: invoke_like_main")])
P("C22", "DICE_SANDBOX is isolated: nothing of the caller changes and no output is lost",
  """Whatever sandboxed code does, the caller's memory, signal handlers, signal mask and other child processes are unchanged, no zombie stays, and the sub process never continues in the caller's code nor runs its destructors and exit handlers.
  Text the caller had buffered appears exactly once and before the output of the sandboxed code; what code that ends normally wrote appears exactly once; also with nested sandboxes and when output cannot be written.""",
  ["inputs", "fault_sequences", "configurations"], "every way code can end, every pattern of buffered and flushed output on std::cout, std::cerr and C streams on both sides, failing sinks and system calls, nested sandboxes",
  "tests print to the terminal without checking the output and never fail a flush", ["sandbox.hpp"],
  [("flush before fork and at the end", "sandbox.hpp: flush_all_streams"), ("_exit in the child", "sandbox.hpp: operator+")])
P("C23", "formatted output is complete, or the failure is reported",
  """Streaming a formattable value writes exactly the text of its formatter for the stream's character type and returns the stream, honours tied and unit-buffered streams, and writes nothing to a stream that has failed before. If not all of the text
  could be written the stream's state or an exception says so; an exception of the formatter reaches the caller. fmt_join gives exactly the elements' texts, each with the given format, separated by the separator, for any range (read once, in
  order, never past its end), separator and output; failing elements and sources reach the caller. DICE_DBG evaluates its expression exactly once and returns its value unchanged, also if std::cerr cannot be written.""",
  ["inputs", "fault_sequences", "configurations"], "every value text and length, every range kind and separator, narrow and wide streams in every state, sinks failing or throwing at any character, formatters, sources and allocations failing at any point",
  "tests write to string streams, which never fail, and use formatters and ranges that never fail", ["format_to_ostream.hpp", "fmt_join.hpp", "dbg.hpp", "variant2.hpp"],
  [("format_to on an ostreambuf_iterator", "format_to_ostream.hpp: operator<<"), ("separator before every element but the first", "fmt_join.hpp: formatter<joiner>::format"), ("forwarding lambda", "dbg.hpp: DICE_DBG")])
P("C24", "ranges made of rust-style iterators visit exactly the elements of their source",
  """A next_to_range, next_to_view or one of their forward or reverse iterators visits exactly the elements of its source, in order, each once, whatever mix of ++, it++, += n, + n, peek, dereferencing, copying and moving it goes through; peek never
  advances and a peeked element is never lost. Copies are independent, every begin() and rbegin() starts anew; size, empty, bool, front, back, [] and advance agree with the elements. If the source fails, the exception reaches the caller and the
  iterator is where it was. range() yields exactly start + k * step up to stop, in both directions, for all integer types up to their limits.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every source with next only, with nth, next_back, nth_back, remaining, copyable or not, every history over several iterators and views, failures at every call and copy; every start, stop and step",
  "tests walk short sources that never fail, copy iterators by one syntax, and reverse only ranges that divide evenly", ["next_to_range.hpp", "ranges.hpp"],
  [("current and peeked element cached", "next_to_range.hpp: next_to_iter_impl"), ("greedy forwarding constructor", "next_to_range.hpp: next_to_iter_impl(Args &&...)"), ("step arithmetic", "ranges.hpp: range_iterator")])
P("C25", "integral_template_variant behaves as std::variant of T<i> in either direction",
  """An integral_template_variant over an ascending or descending range of integers holds exactly one T<i> of that range, or is valueless after a failed assignment or emplace; index, holds_alternative, get, visit, comparison and hashing
  agree on it, and get of another alternative or a visit of a valueless variant throws. Alternatives are constructed and destroyed exactly once, and emplace replaces the old object by a new one; a failing constructor, copy, move or visitor reports its exception and leaves the old
  value or a valueless variant, and never terminates the program.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every history of operations over several variants, ascending, descending and negative ranges, alternatives of different sizes that fail at any construction, copy or move",
  "tests use alternatives that never fail", ["integral_template_variant.hpp"],
  [("alternatives generated from the integer range", "integral_template_variant.hpp: integral_template_variant")])
P("C26", "range algorithms give the result defined by the elements of any input range",
  """all_of, any_of, none_of, empty, non_empty, all_equal, all_distinct, is_sorted_unique, lexicographical_compare_three_way, unique, remove_element, opt_min, opt_max and opt_minmax (and _element) give exactly the result defined by the elements, called
  with a range, with iterators or in a pipeline, for any input range, also one that forgets an element when it advances. They read each element in order, never past the end, and not beyond the element that decides the result. A failing source,
  predicate, comparator, projection, hash, element copy or allocation reaches the caller, leaving no element or memory behind.""",
  ["inputs", "fault_sequences", "configurations"], "every sequence of elements, single-pass move-only, single-pass shared, rust-style and forward sources, every call form, failures at every callback, read, copy and allocation",
  "tests use vectors and streams whose iterators cache their element, and callbacks that never fail", ["ranges.hpp", "opt_minmax.hpp"],
  [("iterators copied and advanced", "ranges.hpp: is_sorted_unique_impl, all_equal_impl"), ("seen set", "ranges.hpp: unique_view, all_distinct_impl"), ("optional accumulator", "opt_minmax.hpp: opt_*_element_impl")])
P("C27", "compile-time loops, switches, bound functions and tuples do what they list",
  """for_types, for_values and for_range call their callback once per listed type or value, in order, and stop at a failure, which reaches the caller. switch_cases and switch_bool run exactly the case of the value or the fallback and return
  its result. overloaded, match, bind_front and member function wrappers call the function of the argument's type with the bound and passed arguments in their value categories, any number of times. A standard_layout_tuple or
  integral_template_tuple holds each element at its index, is constructed, copied, moved, compared, visited and folded element by element, and destroys the constructed elements exactly once if another one fails.""",
  ["inputs", "histories", "fault_sequences", "configurations"], "every value inside and outside of the cases, every value category, every history over several tuples, with callbacks and elements that fail at any call, construction, copy or move",
  "tests use callbacks and elements that never fail and compare a few fixed results", ["for.hpp", "switch_cases.hpp", "overloaded.hpp", "functional.hpp", "memfn.hpp", "standard_layout_tuple.hpp", "integral_template_tuple.hpp", "tuple_algorithm.hpp"],
  [("fold over the pack", "for.hpp: for_values, for_types"), ("recursive dispatch", "switch_cases.hpp: switch_cases_impl"), ("bound arguments", "functional.hpp: bind_front"), ("recursive aggregate", "standard_layout_tuple.hpp: standard_layout_tuple_impl")])
P("C28", "ipow returns the exact power or reports that it does not fit",
  """For every base and exponent of any integer types ipow returns the exact power in the base's type, truncated towards zero for negative exponents; it throws overflow_error or underflow_error exactly if the power does not fit.""",
  ["inputs"], "every base and exponent of every pair of integer types", "tests sample a few bases and exponents", ["ipow.hpp"],
  [("squaring with checked multiplication", "ipow.hpp: ipow")],
  na="ipow is a pure function of two integers: no state, allocation, callback, I/O, time or interleaving that a simulator could schedule or fail. Its property is decided by input enumeration or proof, not by simulation.")
P("C29", "pointer_tag_pair gives back exactly the pointer and the tag it was made of",
  """A pointer_tag_pair returns exactly the pointer and the tag it was constructed with, also after a round trip through its tagged pointer, copying and swapping; two are equal exactly if both parts are.""",
  ["inputs"], "every pointer of sufficient alignment and every tag that fits, every number of bits", "tests sample a few pointers and tags", ["pointer_tag_pair.hpp"],
  [("masks", "pointer_tag_pair.hpp: ptr_mask, tag_mask")],
  na="A pair is one immutable word with pure operations that can not fail, allocate, call back or be interleaved (it is not atomic): there is no event for a simulator to order or fault to inject.")
P("C30", "type lists, conditionals, sequences, traits and literals are what they say",
  """Every type_list algorithm, lazy_conditional and lazy_switch, integral sequence, type trait and integer literal yields the type or value its documentation defines for every argument.""",
  ["inputs", "configurations"], "every type, list of types and integer sequence", "tests instantiate a few lists", ["type_list.hpp", "lazy_conditional.hpp", "integral_sequence.hpp", "type_traits.hpp", "stdint.hpp", "macro_util.hpp"],
  [("recursive templates", "type_list.hpp")],
  na="These are computed entirely by the compiler: nothing of them runs, so there is no execution to simulate. (Harnesses of the other properties use them; a change there that breaks a run time guarantee is seen through those.)")
