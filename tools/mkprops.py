#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = ["src/basic/factories.c", "src/basic/cast.c", "src/basic/duplicate.c", "src/basic/reshape.c", "src/basic/slice.c",
       "src/basic/squeeze.c", "src/math/binary_op.c", "src/math/sqrt.c", "src/math/matmul.c", "src/math/dot.c", "src/nn/conv.c",
       "src/nn/pooling.c", "src/nn/batch_norm.c", "src/nn/relu.c", "src/nn/sigmoid.c", "src/nn/tanh.c", "src/nn/softmax.c",
       "src/nn/dropout.c"]
CORE = ["src/core/allocator.h", "src/core/storage.c", "src/core/shape.c", "src/core/tensor.c", "src/core/tensor.h"]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["the public calls and accessors"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "A failed allocation is contained and reported",
     "Whenever the memory allocator refuses a request made during a library call, at whatever point of the call, the call returns the "
     "allocation-failure status (or completes correctly without that memory) and never crashes, hangs, reads or writes through the "
     "missing block, or reports success with an incomplete result. Such a call keeps none of the memory it obtained, releases "
     "nothing twice, leaves no half-built tensor in the caller's handle and leaves its operands as they were.",
     ["fault_sequences", "inputs", "histories"],
     "every library call, every shape/type/device, every single or multiple failure position among the allocations of the call, any earlier history",
     "No existing test makes an allocation fail; the result depends on which of the (up to hundreds of) allocations of one call fails.",
     OPS + CORE, [("status checks after every allocation", "all operations"), ("release of partial work on failure", "factories.c, slice.c, squeeze.c, matmul.c, dot.c, pooling.c, conv.c, batch_norm.c")],
     [("installed allocator", "pair of functions every block comes from and goes back to", "src/core/allocator.c")],
     ["return status", "allocator request/release log", "output handle"])
prop("C02", "No call leaks memory",
     "Every block the library obtains during a call is either part of the tensor the call hands back or released before the call "
     "returns, whether the call succeeds, is rejected, or runs out of memory midway. Destroying a tensor releases everything that "
     "belongs to it, so that after the last tensor is destroyed nothing obtained by the library remains.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of valid, invalid and fault-hit calls and destructions",
     "The tests do not count allocations; leaks on error paths and on rarely taken shapes are invisible to value assertions.",
     OPS + CORE, [("paired raw_alloc/raw_dealloc", "all operations"), ("tensor destruction", "src/core/tensor.c aitisa_destroy")], None,
     ["allocator request/release log"])
prop("C03", "Blocks are released exactly once, through the allocator in force",
     "All memory is obtained from and returned to the allocator pair the caller installed; no block is released twice, no address is "
     "released that was not obtained, and memory of the caller is never released unless it was handed over. A buffer handed over "
     "when creating a tensor belongs to that tensor from the successful call on and is released exactly once, with it; if the call "
     "fails the buffer stays the caller's. Destroying clears the handle, and destroying a cleared handle is harmless.",
     ["histories", "fault_sequences", "configurations"],
     "every sequence of calls under every installed allocator pair, including failing ones",
     "Tests only use the default allocator, where releasing through the wrong function or twice usually goes unnoticed.",
     OPS + CORE, [("default allocator accessor", "src/core/allocator.h"), ("storage ownership", "src/core/storage.c"), ("handle clearing", "src/core/tensor.c aitisa_destroy")],
     [("installed allocator", "the pair in force", "src/core/allocator.c")], ["allocator request/release log", "tensor handles"])
P[-1]["statement"] = ("All memory is obtained from and returned to the allocator pair the caller installed: no block is released twice, no address "
     "that was not obtained is released, and the caller's own memory is released only if it was handed over. A buffer handed over when creating a tensor is "
     "released exactly once, together with the tensor; if the creating call fails it stays the caller's. Destroying a tensor succeeds and clears its "
     "handle, and destroying a cleared handle does nothing.")
prop("C04", "A failed call is as if it had not been made",
     "A call that returns an error, because of its arguments or because memory ran out, leaves every operand, every other tensor and "
     "the caller's argument arrays unchanged, and leaves the output handle untouched, cleared, or holding a complete tensor that can be destroyed; it keeps "
     "no other memory. Once the cause is gone, repeating the call and everything that follows behaves as if "
     "the failed call had never been made.",
     ["histories", "fault_sequences", "inputs"],
     "every failing call at every point of every history, followed by any continuation",
     "Tests that provoke an error look at the status only and end there.",
     OPS, [("output assigned only on success", "all operations"), ("argument checks before any effect", "all operations")], None,
     ["output handle", "all live tensors", "later calls"])
prop("C05", "Tensors are independent values",
     "The tensor a call returns shares no memory with its operands or with any other tensor, and no call changes an operand, another "
     "tensor, or an array argument of the caller. Writing to one tensor or destroying it never affects any other, and a tensor does "
     "not depend on the caller's arrays after the call that made it (except a data buffer handed over).",
     ["histories", "inputs"], "every history of calls, writes through the accessors, and destructions in any order",
     "Each test makes one call on fresh tensors and destroys them at the end, so sharing between operand and result cannot show.",
     OPS + CORE, [("fresh storage for every output", "src/core/tensor.c, src/core/storage.c"), ("copying of dims", "src/core/shape.c"), ("duplicate", "src/basic/duplicate.c")],
     None, ["all live tensors after every step"])
prop("C06", "Results depend on the arguments only",
     "The status and the result of every call except dropout are a function of its arguments: they do not depend on what freshly "
     "obtained memory happens to contain, on where blocks are placed or how they are reused, nor on unrelated calls made earlier.",
     ["histories", "inputs", "configurations"],
     "every call, for every content of fresh memory, every placement and every unrelated history",
     "A test process usually gets zeroed memory in the same layout each time, which hides reads of memory never written.",
     OPS + CORE, [("every element of an output is written", "all kernels"), ("accumulators start from zero", "matmul.c, dot.c, conv.c, pooling.c")],
     None, ["status and result of the same call in differing memory environments"])
prop("C07", "No call touches memory outside the live blocks it may use",
     "Whatever the arguments, valid or not, a call reads and writes only inside blocks that are live at that moment: its operands, its "
     "own allocations and the caller's argument arrays to their documented lengths. Nothing is read or written past an end, before "
     "a start, or after a release.",
     ["inputs", "histories", "fault_sequences"],
     "every call with every shape, step, padding, axis and mode, valid or invalid, in every history",
     "Tests run a handful of shapes and without a bounds checker; a small overrun changes nothing they look at.",
     OPS + ["src/basic/index_utils.c", "src/basic/broadcast.c", "src/core/tensor.h"],
     [("argument validation before indexing", "slice.c, squeeze.c, pooling.c, conv.c, matmul.c"), ("offset arithmetic", "all kernels"), ("typed element access", "src/core/tensor.h")],
     None, ["every load and store of the library against the set of live blocks"])
prop("C08", "Callers working on their own tensors do not disturb each other",
     "When several threads call the library at the same time, each on tensors the others do not write (shared tensors being only "
     "read), every call gives exactly the status and result it gives alone, under every interleaving. This holds for dropout too in the "
     "sense that each call obeys its contract.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of the loads and stores of two to four callers over disjoint outputs and shared read-only operands",
     "All tests are single-threaded; a hidden shared scratch variable needs a switch at one particular instruction.",
     OPS + ["src/core/allocator.c"], [("no mutable state outside the tensors", "whole library"), ("automatic storage for scratch", "all kernels")],
     [("installed allocator", "the only process-wide variable the library keeps; read-only during calls", "src/core/allocator.c"), ("random generator", "libc's, used by dropout", "src/nn/dropout.c")],
     ["status and result of each caller's calls"])
prop("C09", "Creation and data movement do what they say, in every history",
     "Creating, filling, casting, reshaping, slicing, squeezing and duplicating tensors, and reading or writing single elements, give "
     "exactly the shape, element type, device and data that a simple reference model of named tensors gives, for every sequence of such "
     "calls. Valid calls are accepted. Positions and coordinates of an element convert into each other, row by row, for every shape.",
     ["histories", "inputs"], "every sequence of creation and data-movement calls over all element types, ranks 0 to 5 and all legal arguments",
     "Tests sample one or two shapes and mostly one element type per operation, always on fresh tensors.",
     ["src/basic/factories.c", "src/basic/cast.c", "src/basic/reshape.c", "src/basic/slice.c", "src/basic/squeeze.c", "src/basic/duplicate.c", "src/basic/index_utils.c", "src/core/tensor.c", "src/core/tensor.h"],
     [("per-type kernels", "src/core/dispatch.h and each file"), ("offset arithmetic", "slice.c, index_utils.c")], None, ["result tensors against the model"])
prop("C10", "Arithmetic and products agree with the reference model",
     "Element-wise addition, subtraction, multiplication, division and square root, matrix product (all rank combinations) and dot product give the "
     "shape, type and values of a straightforward reference model for all element types, in every history and whatever the memory "
     "held before. Integer division by zero is reported as an error. Two shapes combine exactly when, aligned at the last axis, each pair of extents is equal "
     "or has a 1, and the combined shape takes the larger of each pair.",
     ["histories", "inputs"], "every sequence of arithmetic calls on tensors produced by any other calls",
     "Tests use a few small shapes and mostly float operands; ranks, types, and reuse of earlier results are hardly combined.",
     ["src/math/binary_op.c", "src/math/sqrt.c", "src/math/matmul.c", "src/math/dot.c", "src/basic/broadcast.c"],
     [("per-type kernels", "binary_op.c, matmul.c, dot.c"), ("batch broadcasting in matmul", "matmul.c")], None, ["result tensors against the model"])
prop("C11", "Convolution, pooling, normalisation and activations agree with the model",
     "Convolution (any rank, stride, padding, dilation, groups), max and average pooling, batch normalisation, softmax, relu, sigmoid and tanh give the "
     "shape, type and values of a straightforward reference model, in every history and whatever the memory held before. Valid calls are accepted.",
     ["histories", "inputs"], "every sequence of such calls on tensors produced by any other calls, over all legal configurations",
     "Tests fix one configuration per operation; stride, padding, dilation, groups, axis and type are never combined.",
     ["src/nn/conv.c", "src/nn/pooling.c", "src/nn/batch_norm.c", "src/nn/softmax.c", "src/nn/relu.c", "src/nn/sigmoid.c", "src/nn/tanh.c"],
     [("window enumeration", "conv.c, pooling.c"), ("per-channel slices", "batch_norm.c"), ("running maximum and sum", "softmax.c")], None, ["result tensors against the model"])
prop("C12", "Dropout keeps its contract whatever the clock and the random source do",
     "Dropout returns a new tensor of the same shape and type in which each element is either the input's or zero, a rate of 0 keeps all and "
     "of 1 drops all, and rates outside [0,1] are rejected. Over many calls the share of dropped elements matches the rate, neighbouring elements are "
     "dropped independently and successive masks differ - also when the clock stands still, jumps, or many calls fall into one second.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "every rate, shape and type, every behaviour of the wall clock between calls (stalled, ticking, jumping both ways)",
     "The single test cannot assert anything about a random mask and runs once, at one instant.",
     ["src/nn/dropout.c"], [("seeding once", "dropout.c"), ("draw per element against the rate", "dropout.c")],
     [("seeded flag", "whether the generator has been seeded", "src/nn/dropout.c")], ["masks over a session under a simulated clock and generator"])
P[-1]["statement"] = ("Dropout returns a new tensor of the same shape and type in which each element is either the input's or zero; a rate of 0 keeps all, "
     "a rate of 1 drops all. Over many calls the share of dropped elements matches the rate, elements are dropped "
     "independently of each other, and successive masks differ, also when the clock stands still, jumps, or many calls fall into one second.")
prop("C13", "Invalid calls are rejected with the right error and nothing else",
     "A call whose arguments violate the operation's documented requirements (types, ranks, shapes, extents that are negative or whose product overflows, "
     "axes, bounds, steps, modes, rates, devices) "
     "returns the error that names the violation instead of succeeding, crashing or aborting the process, in every history.",
     ["inputs", "histories"], "every operation with every kind of invalid argument, at every point of a session",
     "Tests check few error returns, and never after other calls have succeeded or failed.",
     OPS, [("argument checks", "every *_check_* function")], None, ["return status"])
prop("C14", "A tensor's metadata is consistent however it is read",
     "For every tensor the library hands out, element count equals the product of the dimensions, the data block holds exactly that many "
     "elements of the stated type, and all ways of reading shape, type, device, data and length (single accessors, shape, bulk query) "
     "agree with each other and with the operation that made it; a result reports the device of the operation's first operand.",
     ["histories", "inputs"], "every tensor produced by any sequence of calls",
     "Tests read the one or two fields they assert, right after creation.",
     CORE + ["src/core/types.h"], [("shape creation", "src/core/shape.c"), ("bulk query", "src/core/tensor.c aitisa_resolve"), ("inline accessors", "src/core/tensor.h")],
     None, ["all accessors after every step"])
prop("C15", "Test-library handles share, copy and release their buffers exactly once",
     "Input, result and sample objects of the automatic test library may be constructed, copied, moved, assigned (also to themselves, and after being moved from), have "
     "their result replaced and be destroyed in any order: buffers stay alive and unchanged while any object refers to them and are released exactly once with the "
     "last one. A sample computed from an input reports the kernel's result and leaves the input usable; a failing allocation harms no other object.",
     ["histories", "fault_sequences"], "every history of object operations over shared buffers, with allocations failing at any point",
     "The library's own tests do not build the test library at all, and its users only construct, run and exit.",
     ["auto_test/sample.h", "auto_test/sample.cpp", "auto_test/basic.h"],
     [("shared reference count", "auto_test/sample.h destructors, sample.cpp copy/assign"), ("copy of result buffers", "sample.cpp set_result"), ("sample computation", "sample.h get_binary_sample")],
     [("count", "objects sharing the buffers", "auto_test/sample.h")], ["object accessors", "operator new/delete and malloc/free log"])

NA = [
    ("N03", "Numeric accuracy at extreme magnitudes", "Floating-point kernels stay within a few units in the last place of the exact result for extreme, subnormal, infinite and not-a-number operands.",
     "all floating-point inputs", ["src/math/sqrt.c", "src/nn/softmax.c", "src/nn/sigmoid.c"], "floating-point kernels", "a pure function of the values: input generation or proof decides it, not simulation; C10/C11 compare with stated tolerances, soft-max and tanh at all finite magnitudes, the rest where no intermediate result overflows"),
    ("N04", "The automatic comparison accepts exactly the agreeing implementations", "A user implementation passes the automatic tests exactly when shape, type, device, length and data agree with the library's within tolerance.",
     "all user results", ["auto_test/test_code/binary_op_test.h", "auto_test/test_code/conv_test.h"], "comparison code in test templates", "a pure comparison of two buffers inside test macros; nothing a scheduler or fault injector decides"),
    ("N06", "Sample data generators are reproducible", "The natural and random generators of the test library give the same data for the same length and type every time.",
     "all lengths and types", ["auto_test/basic.cpp"], "fixed-seed generators", "fixed seed and no clock, state or fault: a pure function of length and type"),
]
LEVEL = {
    "C01": "seeded search over plans with seven kinds of allocation failure (k-th, from k on, bursts, random masks, byte budgets, size thresholds, call sites) and full sweeps over the failure positions of a call",
    "C02": "every block is accounted to the call that obtained it and to the tensor it belongs to; valid, rejected and fault-hit calls mixed",
    "C03": "two distinguishable allocator pairs and the default one; every release is checked against the registry of blocks, owners and allocators",
    "C04": "a violation after a failing call counts only if the same history without the failing calls does not show it (counterfactual execution)",
    "C05": "after every step every live tensor is compared with its model value and every block with its owner",
    "C06": "each plan runs three times under different fresh-memory contents, placement policies and unrelated histories; any difference in status or result is the violation",
    "C07": "address sanitizer over exact-size, red-zoned blocks in a simulated heap that decides reuse",
    "C08": "callers are real threads of which exactly one runs; the seeded scheduler pre-empts at instrumented loads and stores; a violation counts only if the serial execution of the same calls is quiet",
    "C09": "refinement against an executable model, step by step",
    "C10": "refinement against an executable model, step by step; floats compared with a stated tolerance",
    "C11": "refinement against an executable model, step by step; floats compared with a stated tolerance",
    "C12": "simulated clock (stalled, ticking, jumping) and libc's generator behind a seam; statistical bounds at 7-8 standard deviations over whole sessions",
    "C13": "every invalid-argument class mixed into valid histories, status compared with the model's admissible codes",
    "C14": "all accessors of every live tensor compared after every step",
    "C15": "reference-count model over 26 handle slots, operator new and malloc failing at seeded positions",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
        for i, t, s, q, files, m, why in NA:
            f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": q},
                                "why_tests_cant": "The tests sample a few values of an unbounded input space.",
                                "anchors": {"files": files, "mechanism": [{"name": m, "where": files[0]}], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [{"property": n[0], "reason": n[6]} for n in NA],
           "notes": "No hooks in /repo: the seams are the library's own installable allocator plus symbol redefinition of the compiled objects (sim/redefine*.txt). Every check rebuilds from /repo's working tree."}
    for p in P:
        i = p["id"]
        man["checks"].append({
            "property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over call histories, faults, placements"
                         + (", interleavings" if i == "C08" else ", clock behaviour" if i == "C12" else ""),
            "level": "exploration",
            "level_note": LEVEL[i] + ". A quiet run is evidence about the executions made (counted in the evidence file), not proof; trusts the model in sim/model.cpp"
                          .replace("sim/model.cpp", "sim/handles.cpp" if i == "C15" else "sim/model.cpp") + " and the sanitizer."})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


main()
