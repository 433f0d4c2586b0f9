#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = "Runs the real library in a checked and an optimised build, several processes with different worker counts."
T = {
 "C01": ("online monitor of constructors, lookups and index enumeration against row-major arithmetic", "Every lookup of the sampled tensors is compared with an independent model."),
 "C02": ("online monitor of element-wise sums and differences against a broadcast model", "Floats are compared for equality too: one operation per element leaves no freedom."),
 "C03": ("online monitor of maps, products and scalings against an element-wise model", "As C02."),
 "C04": ("online differential monitor: every observer of a view against the same observer of a copied region", "Copies are built by the harness's own model, not by the library."),
 "C05": ("online monitor of matrix products against a triple loop in exact arithmetic", "Prime-field and integer elements compare exactly in any summation order; floats within a rounding bound."),
 "C06": ("online monitor of sums and dot products in exact arithmetic", "As C05; conservation is also seen by distinct powers and primes."),
 "C07": ("online monitor of gradients of random programs against reverse accumulation on plain arrays", "Exact in a prime field and in integers; floats within a bound derived from magnitudes."),
 "C08": ("history monitor: state model of values and gradients over random operation histories", "Every tensor's gradient and value is compared after every step of the history."),
 "C09": ("offline linearizability checker over recorded concurrent call histories; conservation monitor under stress with injected delays", "Each contribution is a distinct power of two, so a lost, doubled or torn update is visible in any read."),
 "C10": ("deadlock and answer monitor in many calling contexts with delays injected into element arithmetic", "A process whose threads all stand still for 20 s without CPU time or context switches is reported with their stacks."),
 "C11": ("fault injection: panic at enumerated arithmetic operations, monitors on containment and recovery", "Every operation of small calls is made to fail, and chosen ones of large calls."),
 "C12": ("online monitor of optimizer steps against a model of parameters, gradients and replaced tensors", "Exact in a prime field; floats within a rounding bound."),
 "C13": ("online monitor of layer and network outputs against composition on plain arrays", "As C12."),
 "C14": ("trajectory monitor against a reference run; monitors of operation counts and live bytes per iteration", "Counts come from instrumented elements and a counting allocator; trends must continue in a longer series before they count."),
 "C15": ("Miri, ThreadSanitizer, AddressSanitizer over the workloads of all properties; live-byte leak monitor", "Race reports whose accesses are made inside the thread-pool crates do not count (fences ThreadSanitizer cannot see), nor do experimental aliasing reports located there."),
 "C16": ("online monitor of equality between tensors reached in different ways", "As C01."),
 "C18": ("replay monitor: sessions of repeated and interleaved requests with known answers, disturbed by refusals, injected panics and drops, on one or many threads", "Requests with equal shapes and other data alternate, so an answer kept from an earlier request shows."),
 "C19": ("resource monitor: arithmetic operations of instrumented elements, peak memory and bytes allocated per request against the size of the request", "The allowed factors are six or more times what the library takes, so another implementation with the same growth passes."),
 "C17": ("online monitor: ill-formed requests near the boundary of well-formed ones must be refused", "Refusal is an error value or a panic; the request's operands must stay as they were."),
}
checks = []
for p, (t, n) in T.items():
    cmd = "python3 check.py %s" % p
    checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, technique="runtime monitoring: " + t,
                       level="fault_enumeration" if p == "C11" else "exploration",
                       level_note=n + " " + (NATIVE if p != "C15" else "Runs Miri, two sanitizer builds and a native build.") +
                       " Says nothing about executions it did not observe; trusts the harness's reference arithmetic, rustc and rayon."))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo are needed: element types of the library are open, so the monitors use instrumented element types through the public API.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
