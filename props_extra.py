def c14(P, V, D):
    return P("C14","Variants over type sequences and long type lists keep every guarantee",
 "A variant whose types are given as a type sequence (make_variant_over with a vector, list, joint view or computed sequence), or that has many more types than usual, behaves exactly like one that lists the same types directly: same index for each type, same construction, conversion, assignment, swap, visitation, value access, comparison, hashing and exception guarantees, for every position in the list, including content that a failed assignment has moved to the heap.",
 ["histories","inputs","configurations","fault_sequences"],"every history over sequence-based variants of several sequence kinds and up to 40 types, with a failure at any element operation or allocation",
 "The tests construct one or two sequence-based variants and assign a couple of values; index handling, conversion and failed assignment at late positions and in the heap state are not sampled.",
 ["include/boost/variant/variant.hpp",D+"initializer.hpp",D+"over_sequence.hpp",D+"visitation_impl.hpp",D+"make_variant_list.hpp"],
 [("recursive initializer nodes used for sequences","initializer.hpp / variant.hpp: initializer_node"),("visitation in steps of twenty types","visitation_impl.hpp: visitation_impl"),("over_sequence unpacking","variant.hpp: make_variant_over")],
 ["which()","visited content","all results of C01-C12 operations"])


def c13(P, V, D):
    return P("C13","Threads using distinct variants or only reading shared ones never interfere",
 "Operations on distinct variants may run in different threads at the same time, and so may any number of operations that only read one variant (visiting it as const, value access, comparison, hashing, output, copying from it), with no synchronisation by the user: there is no data race inside the library, and every operation has exactly the effect and result it has when it runs alone, also when operations fail.",
 ["schedules","fault_sequences","histories"],"every interleaving of the memory accesses of concurrent operations on distinct variants and const operations on shared variants in every storage state, with failures injected",
 "The tests are single-threaded; a hidden shared buffer, cache or lazily normalised state only shows under a particular interleaving.",
 [V,D+"visitation_impl.hpp",D+"hash_variant.hpp",D+"backup_holder.hpp","include/boost/variant/recursive_wrapper.hpp",D+"multivisitors_cpp11_based.hpp"],
 [("no shared mutable state; const operations do not write to the variant","variant.hpp, get.hpp, hash_variant.hpp, visitation_impl.hpp")],
 ["memory accesses of each thread","results of each operation"])
extra=[c13,c14]
