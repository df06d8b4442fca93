#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Min and Max report the exact extremes of the window or stream",
 "After any sequence of pushes and clears, the minimum (maximum) metric reports exactly the smallest (largest) of the last `window` values pushed since the last clear, or of all of them when the window is 0. With no value since the last clear it reports an error.",
 ["inputs", "histories", "configurations"],
 "every history of pushes of non-NaN floats (duplicates, signed zeros, infinities included) and clears; every window size >= 0, including streams many times longer than the window",
 "The tests push two or three short streams through one window; an eviction bug needs a particular pattern of ties, monotone runs and evicted extremes, and the number of such patterns is exponential in the window.",
 ["minmax/min.go", "minmax/max.go"],
 [("monotone deque plus FIFO of the window", "minmax/min.go Min.Push, minmax/max.go Max.Push"), ("running extreme for window 0", "minmax/min.go Min.Push else-branch")],
 ["Min.Value", "Max.Value"])

prop("P02", "Quantile, Median and IQR are exact for every backing structure",
 "After any sequence of pushes and clears, the quantile metric reports for every quantile in (0,1) the value that the documented rule (raw index = quantile*(n-1), then the configured interpolation) gives on the sorted contents of the window, whichever backing structure (AVL, red-black, skip list with any options) is configured. Median is the 0.5 quantile and IQR the difference of the 0.75 and 0.25 quantiles under midpoint interpolation, and an empty metric reports an error.",
 ["inputs", "histories", "configurations"],
 "every history of finite floats with duplicates and clears, every window size, quantile, interpolation method, backing structure and random level choice of the skip list",
 "Tests sample a few streams per structure; correctness depends on the shape the balanced tree / random skip list has reached, on ties between equal values being removed, and on the parity and fraction of the raw index.",
 ["quantile/quantile.go", "quantile/median.go", "quantile/iqr.go", "quantile/interpolation.go", "quantile/option.go", "quantile/impl.go"],
 [("order statistic Select with interpolation", "quantile/quantile.go Quantile.Value"), ("FIFO eviction via Remove", "quantile/quantile.go Quantile.Push")],
 ["Quantile.Value", "Median.Value", "IQR.Value"])

prop("P03", "The heap-based median is exact for every window and stream",
 "After any sequence of pushes and clears, the heap median reports the median (middle value, or the mean of the two middle values) of the last `window` values since the last clear, or of all of them when the window is 0, and an error when there are none. No push ever fails or panics for any window size of at least 1.",
 ["inputs", "histories", "configurations"],
 "every history of finite floats and clears, every window size, in particular streams longer than the window where the evicted value sits in either half and after rebalancing",
 "The evicted item's identity must be tracked through swaps, rebalancing and cross-heap moves; the tests check one 15-push layout whose evictions happen to pick interchangeable items.",
 ["quantile/heap_median.go", "quantile/heap/heap.go"],
 [("two heaps with size difference at most 1", "quantile/heap_median.go HeapMedian.rebalance"), ("queue of heap items in arrival order", "quantile/heap_median.go HeapMedian.Push")],
 ["HeapMedian.Value", "HeapMedian.Push"])

prop("P04", "Order-statistic structures behave as a sorted multiset",
 "After any sequence of adds, removes and clears, the AVL tree, red-black tree and skip list each behave as a sorted multiset of floats: the size, the k-th smallest element for every k (nothing out of range), and the rank (number of elements strictly smaller) of any value are exact; removing a value removes exactly one copy, and removing an absent value changes nothing.",
 ["histories", "inputs", "configurations", "schedules"],
 "every add/remove/clear history including duplicates and absent removals, every tree shape so reached, and every outcome of the skip list's random level choice",
 "Tests fix one handful of insertions; duplicate handling, rotations with sizes and skip-list widths only go wrong in particular shapes / random level patterns.",
 ["quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/skiplist/skiplist.go", "quantile/order/order.go"],
 [("subtree sizes maintained through rotations", "quantile/ost/avl/node.go balance, quantile/ost/rb/node.go addBalance/removeBalance"), ("skip widths", "quantile/skiplist/skiplist.go SkipList.Add/Remove")],
 ["Size", "Select", "Rank"])

prop("P05", "Search trees stay logarithmically shallow",
 "Whatever sequence of adds and removes produced it, an AVL tree holding n values is never deeper than 1.4405*log2(n+2) levels, its reported height is its real height, and a red-black tree holding n values is never deeper than 2*log2(n+1)+1 levels.",
 ["histories", "inputs"],
 "every add/remove history, including sorted, reversed, duplicate-only and adversarial delete orders",
 "A missing rebalancing step leaves every answer right and only degrades the promised O(log n) cost for particular insertion/deletion orders; no existing test measures depth after deletions.",
 ["quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "complexity.md"],
 [("AVL rotations", "quantile/ost/avl/node.go balance"), ("left-leaning red-black fix-ups", "quantile/ost/rb/node.go addBalance/removeBalance")],
 ["Tree.Height", "Node.Left", "Node.Right"])

prop("P06", "Memory use is bounded by the window, not by the stream",
 "The memory retained by a metric never grows with the number of values consumed beyond what its window (or lag, or sample size) requires: every windowed metric, and every global metric documented as constant space (moments, joint moments, exponentially weighted metrics, global min/max, reservoir sample), has a footprint that is bounded for arbitrarily long streams, with or without clears.",
 ["histories", "inputs", "configurations"],
 "arbitrarily long streams of every shape (ascending, descending, constant, alternating, periodic), every window",
 "A value left behind in an auxiliary structure is invisible to value-based assertions and shows only on long streams of particular shapes.",
 ["minmax/min.go", "quantile/quantile.go", "quantile/heap_median.go", "moment/core.go", "joint/core.go", "joint/autocorr.go", "complexity.md"],
 [("ring buffers sized by the window", "queue.NewRingBuffer(window) in each metric"), ("monotone deque pruning", "minmax/min.go Min.Push")],
 ["reachable heap of the metric object"])

prop("P07", "Univariate moments equal their definition over the window or stream",
 "After any sequence of pushes and clears, count, mean, the k-th central power sum for every tracked k, the k-th sample central moment, standard deviation, skewness and excess kurtosis equal, up to floating-point rounding, their textbook definition evaluated on the last `window` values since the last clear (on all of them when the window is 0), whenever that definition is well defined. Querying with no values, or for a power that is not tracked, reports an error.",
 ["inputs", "histories", "configurations"],
 "every history of finite values and clears, every window size, every set of tracked powers (including high powers), streams much longer than the window",
 "The update/downdate recurrences are checked by tests on one 5-value window; errors in a coefficient, an eviction boundary (window 1, exactly full, just after a clear) or a high power show only for other histories.",
 ["moment/core.go", "moment/mean.go", "moment/moment.go", "moment/std.go", "moment/skewness.go", "moment/kurtosis.go", "util/math/math.go"],
 [("Pebay update", "moment/core.go Core.add"), ("Pebay downdate", "moment/core.go Core.remove"), ("binomial coefficients", "util/math/math.go Binom")],
 ["Core.Count", "Core.Mean", "Core.Sum", "Mean/Moment/Std/Skewness/Kurtosis.Value"])

prop("P08", "Exponentially weighted univariate metrics follow the decay recurrence",
 "After any sequence of pushes and clears, the exponentially weighted average, k-th central moment and standard deviation equal, up to floating-point rounding, the direct weighted sums in which the first value after a clear has weight 1 and each later value gets weight `decay` while all earlier weights are multiplied by (1-decay), centred at the weighted mean. Before any value they report an error.",
 ["inputs", "histories", "configurations"],
 "every history of finite values and clears, every decay in (0,1), every power k including high ones",
 "Tests use one decay and one short stream; wrong cross terms, the first-value rule after a clear and high powers are only visible on other histories.",
 ["moment/core.go", "moment/ewma.go", "moment/ewmmoment.go", "moment/ewmstd.go"],
 [("weighted update", "moment/core.go Core.addDecay")],
 ["EWMA.Value", "EWMMoment.Value", "EWMStd.Value", "Core.Sum"])

prop("P09", "Joint central sums, covariance and correlation equal their definition",
 "After any sequence of pushes and clears, the joint core's count, per-variable means and every tracked multivariate central power sum (each configured exponent tuple and every tuple below it, for any number of variables and any set of possibly overlapping tuples), as well as sample covariance and Pearson correlation, equal up to rounding their definition on the last `window` joint observations since the last clear (all of them for window 0), whenever well defined. Queries with no values, for a variable that does not exist, or for a tuple that is not tracked report an error.",
 ["inputs", "histories", "configurations"],
 "every history of finite joint observations and clears, every window, every set of exponent tuples (overlapping, nested, repeated, with zeros), 2 or more variables",
 "Tests use one tuple at a time on one short window; interactions between several tracked tuples during eviction, three or more variables and boundary windows are not reached.",
 ["joint/core.go", "joint/tuple.go", "joint/cov.go", "joint/corr.go"],
 [("multivariate update", "joint/core.go Core.add"), ("multivariate downdate", "joint/core.go Core.remove"), ("tuple keyed table", "joint/tuple.go Tuple.hash")],
 ["Core.Count", "Core.Mean", "Core.Sum", "Cov.Value", "Corr.Value"])

prop("P10", "Exponentially weighted joint metrics follow the decay recurrence",
 "After any sequence of pushes and clears, the exponentially weighted covariance and correlation, and every tracked joint sum of a core configured with a decay, equal up to rounding the direct weighted sums in which the first observation after a clear has weight 1 and each later one weight `decay` while earlier weights are multiplied by (1-decay), centred at the weighted means. Before any observation they report an error.",
 ["inputs", "histories", "configurations"],
 "every history of finite joint observations and clears, every decay in (0,1), every set of exponent tuples",
 "Tests use a single decay and stream and only first-order cross terms.",
 ["joint/core.go", "joint/ewmcov.go", "joint/ewmcorr.go"],
 [("weighted multivariate update", "joint/core.go Core.addDecay")],
 ["EWMCov.Value", "EWMCorr.Value", "Core.Sum"])

prop("P11", "Autocovariance and autocorrelation pair each value with its lagged value",
 "After any sequence of pushes and clears, the autocovariance and autocorrelation for lag L over window W equal up to rounding the sample covariance and correlation of the pairs (x[t], x[t-L]) for the last W values of t for which both were pushed since the last clear (all such t when W is 0), including L = 0 and L larger than W. When no such pair exists they report an error.",
 ["inputs", "histories", "configurations"],
 "every history of finite values and clears, every lag >= 0 and window >= 0, streams longer than lag plus window",
 "Tests fix one lag and window; the lag queue and the window must be cleared and advanced together, which fails only at particular history lengths or clear positions.",
 ["joint/autocov.go", "joint/autocorr.go"],
 [("lag queue in front of the joint core", "joint/autocorr.go Autocorr.Push"), ("joint reset of core and lag queue", "joint/autocorr.go Autocorr.Clear")],
 ["Autocov.Value", "Autocorr.Value"])

prop("P12", "A cleared metric is indistinguishable from a new one",
 "After clearing, at any point of any history, every metric, core, order-statistic structure and aggregate behaves exactly like a freshly constructed one with the same configuration for every continuation. Clearing an empty metric, or one not yet set up, is harmless.",
 ["histories", "inputs", "configurations"],
 "every prefix history (empty, partially filled, full, wrapped-around), any number of clears, every continuation",
 "Tests clear once and look at the immediate value; a counter, queue position or internal table that survives the clear only matters later, typically when the window next becomes full.",
 ["minmax/min.go", "quantile/quantile.go", "quantile/heap_median.go", "moment/core.go", "joint/core.go", "joint/autocorr.go", "quantile/skiplist/skiplist.go", "aggregate/simple_aggregate.go"],
 [("Clear of each type", "all Clear methods")],
 ["every observer of every type"])

prop("P13", "Concurrent use of one metric is linearizable and free of data races",
 "When any number of goroutines push to, query, and clear one shared metric, core, reservoir or aggregate without any outside synchronisation, the results are those of some one-at-a-time order of the calls that respects their real-time order, and no unsynchronised access to shared memory occurs. In particular a query never mixes the state before and after a concurrent push or clear.",
 ["schedules", "histories"],
 "every interleaving of calls from several goroutines on one metric object, including metrics that share one core",
 "A unit test runs one schedule out of exponentially many; the existing lock test only starts one goroutine on one path.",
 ["moment/core.go", "joint/core.go", "joint/autocorr.go", "minmax/min.go", "quantile/quantile.go", "quantile/iqr.go", "quantile/heap_median.go", "sample/sample.go", "aggregate/simple_aggregate.go"],
 [("one lock per metric held for the whole call", "mux fields; core RLock/Lock in each Value")],
 ["return values of concurrent calls"])

prop("P14", "No operation can deadlock or leave a metric locked",
 "Any set of concurrent pushes, queries and clears on metrics terminates in every interleaving: no call blocks forever. A call that fails, or a query on an empty metric, releases everything it acquired, so later calls from any goroutine proceed.",
 ["schedules", "histories"],
 "every interleaving of finitely many calls from several goroutines, including writers queued between a reader's steps, shared cores, aggregates, and every error path",
 "Re-entrant read locking blocks only when a writer arrives between the two acquisitions, a window of nanoseconds that a test practically never hits.",
 ["moment/core.go", "moment/mean.go", "moment/moment.go", "moment/skewness.go", "moment/kurtosis.go", "joint/core.go", "joint/cov.go", "joint/corr.go", "joint/autocov.go", "quantile/iqr.go", "aggregate/simple_aggregate.go"],
 [("deferred unlocks", "every locking method"), ("lock-free inner accessors", "Unsafe* methods of the cores")],
 ["termination of calls"])

prop("P15", "Separate metric objects never influence each other",
 "Operations on one metric object never change or delay the results of another object that was constructed separately, whether their calls are interleaved in one goroutine or run concurrently in several, and whatever their configurations. Concurrent use of distinct objects is free of data races.",
 ["schedules", "histories", "configurations"],
 "every interleaving of operations of two or more separately constructed objects of the same or different types, from one or several goroutines",
 "Shared package-level tables or default values leak between objects only for particular configuration pairs (for example high powers) and orders; tests use one object at a time.",
 ["util/math/math.go", "moment/config.go", "joint/config.go", "moment/core.go", "quantile/skiplist/skiplist.go"],
 [("per-object state", "constructors"), ("package-level tables and defaults", "util/math/math.go, moment/config.go, joint/config.go")],
 ["every observer of every type"])

prop("P16", "Aggregates fan every call out to every metric exactly once",
 "A push to an aggregate delivers the value exactly once to every wrapped metric before it returns, a clear clears each of them, and a read returns exactly one entry per wrapped metric, keyed by the metric's string form, all reflecting the same set of completed pushes. If any wrapped metric fails, the call fails and its error reports every failure, while the others still receive the value.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every number and mix of wrapped metrics, every subset of failing metrics, every interleaving of the internal goroutines and of concurrent callers",
 "The fan-out runs in goroutines; lost errors, lost results or early return appear only under particular internal schedules, of which a test run sees one.",
 ["aggregate/simple_aggregate.go", "aggregate/simple_joint_aggregate.go"],
 [("goroutine per metric with wait group and result lock", "aggregate/simple_aggregate.go Push/Values/Clear")],
 ["Push", "Values", "Clear"])

prop("P17", "Invalid configurations and arguments are rejected, valid ones accepted",
 "Constructors, setup functions and queries return an error, and never panic, exactly when an argument is outside its documented domain (negative window or lag, decay not strictly between 0 and 1 or combined with a window, non-positive or negative powers, inconsistent tuple lengths or variable counts, unknown structure or interpolation, quantile not strictly between 0 and 1, NaN parameters, wrong number of values), and otherwise succeed. A setup that fails leaves the metric not set up, so that using it reports an error.",
 ["inputs", "configurations"],
 "every combination of boundary, in-domain and out-of-domain values for each parameter, including NaN and missing (nil) fields",
 "Tests check one invalid value per parameter; the product of boundary values over several parameters (and NaN, which defeats naive comparisons) is not covered.",
 ["moment/config.go", "joint/config.go", "moment/core.go", "joint/core.go", "quantile/option.go", "quantile/quantile.go", "quantile/skiplist/option.go", "joint/autocorr.go", "minmax/min.go"],
 [("validateConfig", "moment/config.go, joint/config.go"), ("option validation", "quantile/option.go, quantile/skiplist/option.go")],
 ["returned errors"])

prop("P18", "Metrics sharing a merged core report what they would report alone",
 "Merging the configurations of any compatible metrics and setting the resulting shared core on all of them makes each report the same values as it would with a core of its own fed the same stream, whatever the order of merging. Configurations with conflicting windows, decays, variable counts or tuple lengths, or an empty list, are rejected with an error, and merging never alters the configurations passed in.",
 ["configurations", "histories", "inputs"],
 "every subset and order of metric configurations (nested, overlapping, duplicate tuples), every stream and window",
 "Tests merge one or two fixed configurations and inspect the merged structure, not the values later computed through it.",
 ["moment/config.go", "joint/config.go", "moment/core.go", "joint/core.go"],
 [("MergeConfigs", "moment/config.go, joint/config.go"), ("dropping dominated tuples", "joint/config.go simplifySums")],
 ["MergeConfigs", "Value of every sharing metric"])

prop("P19", "Caller-owned data is neither altered nor retained",
 "No call modifies a slice, map, pointer target or option list that the caller passed in, and changing such data after the call has returned never affects any later result. Data returned to the caller is likewise independent: modifying it never affects the metric.",
 ["histories", "inputs"],
 "every argument and result of reference type (pushed slices, tuple and power sets, window/decay/variable pointers, option lists, sampled slices, value maps), mutated at any later point of any history",
 "Tests build fresh literals for every call, so aliasing between a metric and its caller never becomes observable.",
 ["joint/core.go", "moment/core.go", "moment/config.go", "joint/config.go", "quantile/median.go", "quantile/iqr.go", "sample/sample.go", "aggregate/simple_aggregate.go"],
 [("copying at the API boundary", "constructors and Push")],
 ["arguments after the call", "later observations"])

prop("P20", "Reservoir sampling is exactly uniform, of the right size, and private",
 "After n pushes the reservoir holds min(n, size) of the pushed items, each position of the stream at most once, and every subset of that size is equally likely. A returned sample is a private copy.",
 ["inputs", "histories", "schedules"],
 "every outcome of every random draw, every reservoir size (including 0) and stream length",
 "A statistical test cannot distinguish small biases and samples draws; exact uniformity is a statement about all random outcomes.",
 ["sample/sample.go"],
 [("algorithm R replacement", "sample/sample.go Reservoir.Push")],
 ["Reservoir.Sample"])

prop("P21", "Failed calls and queries change nothing",
 "A query never changes any later result, however often and in whatever order queries are made, and a call that returns an error (a push with the wrong number of values, a query with an invalid or untracked argument, use before setup) leaves the metric exactly as it was. (An aggregate push in which only some members fail has been delivered to the others and is not meant.)",
 ["histories", "inputs", "fault_sequences"],
 "every history into which queries and failing calls of every kind are inserted at every position",
 "Tests check the error itself, not the state afterwards, and query each object once.",
 ["moment/core.go", "joint/core.go", "quantile/quantile.go", "quantile/skiplist/skiplist.go", "joint/autocorr.go", "aggregate/simple_joint_aggregate.go"],
 [("argument checks before mutation", "joint/core.go Core.UnsafePush"), ("read-only observers", "Value/Sum/Select/Rank methods")],
 ["every observer after failing calls"])

prop("P22", "Results stay numerically sound for shifted, scaled and constant data",
 "Adding a large constant to all inputs leaves variances, higher moments, covariances and correlations unchanged, and scaling the inputs scales them accordingly, within rounding error proportional to the data's precision. With at least two values a standard deviation is never NaN or negative and a variance never negative, also on constant windows after arbitrary evictions.",
 ["inputs", "histories", "configurations"],
 "every history of finite values with a large common offset or scale, every window, streams many times longer than the window, constant stretches after varied ones",
 "Cancellation shows only for large offsets and long eviction histories; the tests use small integers and nine-decimal comparisons on short streams.",
 ["moment/core.go", "joint/core.go", "moment/std.go", "moment/ewmstd.go"],
 [("incremental centred updates", "moment/core.go add/remove, joint/core.go add/remove")],
 ["Moment/Std/Skewness/Kurtosis/Cov/Corr values"])

prop("P23", "Explicit lock sections give consistent snapshots and exclusive updates",
 "Between taking and releasing a core's read lock, all lock-free queries see one unchanging state, the same one for all of them, and several readers may hold it together. Between taking and releasing its write lock, a sequence of lock-free pushes, clears and queries appears to all other goroutines as one indivisible step.",
 ["schedules", "histories"],
 "every interleaving of explicit lock sections with ordinary calls from other goroutines",
 "The one lock test runs a single schedule and checks only that a push waits for one reader.",
 ["moment/core.go", "joint/core.go", "quantile/quantile.go"],
 [("exported RLock/RUnlock/Lock/Unlock and Unsafe methods", "moment/core.go, joint/core.go")],
 ["UnsafeSum/UnsafeMean/UnsafeCount/UnsafePush/UnsafeClear"])

prop("P24", "The string form identifies a metric's kind and configuration",
 "The string form of a metric is the same before and after any pushes, queries, clears or setup, is equal for metrics of the same kind with equal configuration, and differs between metrics of different kinds or different window, lag, power, decay or interpolation. It can be obtained at any time, also before setup.",
 ["configurations", "histories"],
 "every pair of metric configurations and every history",
 "Aggregates key their results by this string, so a collision silently drops a value; tests check one literal per type.",
 ["moment/mean.go", "moment/moment.go", "joint/cov.go", "joint/autocorr.go", "quantile/quantile.go", "quantile/median.go", "minmax/min.go"],
 [("String methods", "every metric")],
 ["String"])

prop("P25", "The work per call follows the documented complexity",
 "The number of elementary steps of a call grows no faster than complexity.md says. A push to or a query of a moment-based, exponentially weighted, joint, autocovariance or autocorrelation metric takes no more steps for a larger window, a longer stream or a larger lag; Min and Max take constant time amortized over the pushes. Quantile, Median and IQR on an AVL or red-black tree (and on the skip list on average) push and answer in time logarithmic in the number of values held, as do add, remove, select and rank on these structures; the heap median pushes in logarithmic and answers in constant time. A push to a core tracking powers up to k takes O(k^2) and a sum query O(1); a push to a joint core with t tuples over d variables takes O(t d a^2), a being the largest product of the exponents plus one over the tuples, and a sum query O(d).",
 ["inputs", "histories", "configurations"],
 "every stream (ascending, descending, constant, alternating, periodic, with duplicates) of any length, every window, lag, power and set of tuples",
 "A walk over the window or over the tuples leaves every answer right; tests compare answers on windows of a handful of values, where the extra work is not noticeable.",
 ["complexity.md", "moment/core.go", "joint/core.go", "joint/autocov.go", "minmax/min.go", "quantile/quantile.go", "quantile/heap_median.go", "quantile/ost/avl/node.go", "quantile/ost/rb/node.go", "quantile/skiplist/skiplist.go", "util/math/math.go"],
 [("incremental add and remove of one value", "moment/core.go Core.add/remove, joint/core.go Core.add/remove"), ("ordered structures with subtree sizes or link widths", "quantile/ost, quantile/skiplist"), ("table of binomial coefficients", "util/math/math.go Binom")],
 ["number of function entries, loop iterations and copied elements executed by Push, Value, Sum"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
