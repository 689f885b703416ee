import json
V="include/boost/variant/variant.hpp"
D="include/boost/variant/detail/"
def P(id,title,st,over,text,why,files,mech,obs,state=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
ps=[
P("C01","A variant is never empty and always holds one valid listed value",
 "At every moment between operations a variant holds exactly one fully constructed, usable value of one of its listed types, and its index, its reported type, visitation and value access all agree on which one. This holds after every construction, assignment, swap, conversion and container operation, whether it succeeded or an element operation or allocation anywhere inside it failed. A constructor that fails leaves no object behind.",
 ["histories","fault_sequences","configurations"],"every history of operations over every mix of element types (throwing or nothrow copy/move/default construction, with or without a fallback type), with a failure injected at any element operation or allocation",
 "The tests throw from one or two hand-picked copy constructors and do not continue using the variant afterwards; the state space is (history x failing point x traits of the types), which they sample at a handful of points.",
 [V,D+"visitation_impl.hpp",D+"backup_holder.hpp",D+"initializer.hpp",D+"move.hpp"],
 [("double-storage / heap backup and fallback construction on failed assignment","variant.hpp: backup_assigner, assigner, move_assigner, construct_fallback"),("which_ updated only after construction succeeded","variant.hpp: indicate_which"),("dispatch on the signed index","visitation_impl.hpp")],
 ["which()","type()","empty()","apply_visitor","get<T>(&v)"],
 [("which_","index of the held type; negative: content is in the heap backup",V),("storage_","aligned storage holding the content, a wrapper, or a backup holder",V)]),
P("C02","Element lifetimes and memory are balanced on every path",
 "Over any history of operations, successful or failed, each element object a variant creates is destroyed exactly once and as its own type, is never used before its construction finished or after its destruction began, and is never overwritten or relocated bytewise while alive. Every memory block obtained is released exactly once, nothing is leaked, and nothing outside the variant's own storage and blocks is written.",
 ["histories","fault_sequences","configurations"],"every history with a failure at any point, every size/alignment mix of element types",
 "A leak or a double destruction on an exceptional path needs the failing point and the storage state (in place, heap backup, wrapper) to coincide; tests do not count lifetimes and do not run those combinations.",
 [V,D+"backup_holder.hpp",D+"visitation_impl.hpp","include/boost/variant/recursive_wrapper.hpp",D+"make_variant_list.hpp"],
 [("destroyer visitor and destroy_content","variant.hpp"),("ownership of the backup pointer","backup_holder.hpp, variant.hpp: backup_assign_impl"),("ownership of the wrapped object","recursive_wrapper.hpp / detail/recursive_wrapper (p_)")],
 ["constructor/destructor calls of element types","operator new / operator delete","memory around the variant"]),
P("C03","A failed assignment keeps the old value or a documented fallback",
 "When assigning to a variant throws, the variant still holds its previous value, except that, if one of its types is nothrow default-constructible and the incoming type can be neither copied nor moved without throwing, it may instead hold a default-constructed value of such a type - boost::blank if that is listed. (If both sides held the same type, the state is whatever that type's own assignment left.) The operand copied from and all other variants are unchanged, and the survivor can be used, copied, assigned from and assigned to as usual.",
 ["fault_sequences","histories","configurations"],"every assignment form, every pair of source and target types and storage states, every failing point, and every continuation after the failure",
 "The existing tests check the state after one failed assignment for a few types and stop; what the guarantee needs is every failing point and then further operations on the survivor (this check found four defects there).",
 [V,D+"backup_holder.hpp"],
 [("choice between in-place, temporary, local backup, heap backup and fallback","variant.hpp: assigner::assign_impl overloads, backup_assigner"),("search for the fallback type","variant.hpp: find_fallback_type")],
 ["which() and content of every variant after the exception"]),
P("C04","Exceptions pass through unchanged; noexcept operations do not terminate",
 "An exception thrown by an element operation, a visitor or an allocation during any variant operation reaches the caller as the same exception, unmodified; no operation reports success when an operation it needed failed, and none throws anything else than its documented exceptions. Operations declared noexcept never end the program as long as the element types keep their own noexcept promises, and a variant whose types are all nothrow movable is itself nothrow move-constructible.",
 ["fault_sequences","configurations","histories"],"every operation, every failing element operation or allocation in it, several exception types (leaf classes of polymorphic hierarchies), every combination of noexcept traits",
 "Tests throw one exception type from one place per test and mostly catch (...).",
 [V,D+"apply_visitor_unary.hpp",D+"apply_visitor_binary.hpp",D+"visitation_impl.hpp","include/boost/variant/recursive_wrapper.hpp"],
 [("BOOST_TRY/BOOST_RETHROW around backup and fallback","variant.hpp"),("noexcept computed from the element types","variant.hpp: is_variant_move_noexcept_constructible / _assignable")],
 ["the exception caught by the caller","std::terminate handler","std::is_nothrow_* of the variant"]),
P("C05","Successful operations behave as operations on a plain tagged value",
 "After a successful construction, conversion from a value or from another variant, copy or move assignment, swap or in-place mutation, the target holds exactly the type and value that the same operation on a plain (type, value) pair gives, with an exact listed type always preferred. Operands that were only read, and all variants not involved, keep their values, copies are independent, assignments return their target, and self-assignment and self-swap change nothing.",
 ["histories","inputs","configurations","fault_sequences"],"every history of operations, including those that follow failed ones and act on variants in every storage state",
 "Each test checks one operation on fresh variants; the interplay of operations, storage states and conversions over a history is not sampled.",
 [V,D+"initializer.hpp",D+"move.hpp"],
 [("initializer overloads choose the type","initializer.hpp"),("converting constructors/assignment between variants","variant.hpp: convert_construct_variant, assign/move_assign"),("swap by content or through a temporary","variant.hpp: swap_with, swap")],
 ["which()","visited content of all variants after each operation"]),
P("C06","Rvalues are moved, never copied, and sources stay valid",
 "Constructing a variant from an rvalue value or rvalue variant moves the content and makes no copy; move assignment and swap copy content only to protect old content from a throwing move: never content whose type is nothrow movable, never when both sides hold the same type in the same kind of storage, and never when the variant has a nothrow default-constructible type unless that copy cannot throw. The moved-from variant keeps its type and a valid (moved-from or unchanged) value and can be reused, move-only types work in every operation that needs no copy, and containers relocate variants of nothrow-movable types by moving.",
 ["histories","inputs","configurations","fault_sequences"],"every move operation and every chain of them, for move-only, copyable, nothrow and throwing types, interrupted by failures anywhere",
 "Tests count copies for a couple of types in one step; they do not follow moved-from variants through further operations or failures.",
 [V,D+"move.hpp",D+"initializer.hpp","include/boost/variant/recursive_wrapper.hpp"],
 [("move constructor and move_into","variant.hpp"),("move_assigner","variant.hpp"),("rvalue initializers","initializer.hpp")],
 ["copy/move counts of element types","state of the source"]),
P("C07","Visitation calls the visitor once with exactly the held contents",
 "Applying a visitor to one or several variants calls it exactly once, with each argument referring to the object currently held by the corresponding variant, in order, with the constness and value category of that operand, and returns or rethrows exactly what the visitor returned or threw; the variants are not changed, copied or moved from by the visitation itself. (With three or more operands an rvalue operand may reach the visitor as a moved temporary.) The held type is found whatever its position in the list and whatever operations and failures led to the current state.",
 ["histories","inputs","configurations","fault_sequences"],"every visitation form (unary, binary, 3-5-ary, delayed, member, generic return type, function pointer), every combination of held types and storage states, visitors that throw",
 "Tests visit freshly built variants with a few forms; contents living in the heap backup after a failure, late positions in long lists and argument categories in combination are not sampled.",
 [D+"apply_visitor_unary.hpp",D+"apply_visitor_binary.hpp",D+"apply_visitor_delayed.hpp",D+"multivisitors_cpp11_based.hpp",D+"multivisitors_cpp14_based.hpp",D+"visitation_impl.hpp","include/boost/variant/visitor_ptr.hpp",V],
 [("switch over the index, unrolled in steps","visitation_impl.hpp"),("currying of operands","apply_visitor_binary.hpp, multivisitors_*.hpp")],
 ["arguments the visitor receives (address, type, category)","result and exceptions"]),
P("C08","Value access yields the held object or fails as documented",
 "Every form of value access (get, strict_get, relaxed_get, polymorphic_get; pointer, reference, const and rvalue forms) yields the held object itself when its type is the requested one; otherwise pointer forms give null and reference forms throw the documented exception. A null variant pointer gives null, requesting an unlisted type in the relaxed form always fails, a base class requested polymorphically is found for every derived type held, and access never changes, copies or moves the content.",
 ["histories","inputs","configurations","fault_sequences"],"every access form, requested type and held type, after every history including failed operations",
 "Tests try each form on a few fresh variants; not on content that has moved to the heap after a failure, nor every pair of requested and held type.",
 ["include/boost/variant/get.hpp","include/boost/variant/polymorphic_get.hpp",D+"element_index.hpp"],
 [("get_visitor compares by type through visitation","get.hpp"),("polymorphic get visitor","polymorphic_get.hpp")],
 ["pointer/reference obtained","bad_get / bad_polymorphic_get"]),
P("C09","Comparison and hashing follow the (index, value) order",
 "Two variants are equal exactly when they hold the same type and equal values; the ordering compares first by position of the held type and then by value, and the six operators are consistent with each other. Equal variants have equal hashes, all ways of hashing agree, the hash depends on the held type and value, and comparing or hashing never changes either operand, even if an element comparison or hash throws.",
 ["inputs","histories","configurations","fault_sequences"],"every pair of variants in every reachable state, with element comparisons and hashes that may throw",
 "Tests compare a few pairs; pairs of every storage state and throwing comparisons are not sampled.",
 [V,D+"hash_variant.hpp"],
 [("comparer visitor with eq_comp/lt_comp","variant.hpp"),("variant_hasher","hash_variant.hpp")],
 ["results of ==, !=, <, >, <=, >=, hash_value, std::hash, boost::hash"]),
P("C10","Recursive variants behave as value trees",
 "A recursive variant (built with recursive_wrapper or make_recursive_variant) is a value: copying copies the whole tree, copies share nothing, assigning, swapping or moving any node gives exactly the tree the same edit on a plain tree gives, and destroying it destroys every node once. Wrapping is transparent to visitation, value access, comparison, hashing and output, and if any allocation or node copy fails midway every variant involved is still a valid tree.",
 ["histories","inputs","fault_sequences"],"every history of edits on trees (whole-tree and single-node), every failing allocation or node operation",
 "Tests build a few fixed trees without failures.",
 ["include/boost/variant/recursive_wrapper.hpp","include/boost/variant/recursive_wrapper_fwd.hpp","include/boost/variant/recursive_variant.hpp",D+"enable_recursive.hpp",D+"substitute.hpp",V],
 [("heap-allocated wrapped object, never null","recursive_wrapper.hpp"),("substitution of the recursive tag","enable_recursive.hpp, substitute.hpp")],
 ["structural value of each tree","lifetimes of nodes"],[("p_","owned pointer to the wrapped object","recursive_wrapper.hpp")]),
P("C11","Streaming a variant is streaming its content",
 "Writing a variant to an output stream produces exactly the characters, stream state, formatting effects and exceptions that writing its content would, on narrow and wide streams, and returns the stream. This includes streams that are already failed, whose buffer fails or throws after any number of characters, and contents whose own output throws.",
 ["inputs","fault_sequences","histories"],"every held content, format state, exception mask and failing character position",
 "Tests write two or three values to a healthy string stream.",
 [D+"variant_io.hpp"],
 [("printer visitor","variant_io.hpp")],
 ["characters received by the stream buffer","rdstate(), width(), flags()","exception"]),
P("C12","Content is stored in place, aligned, without needless allocation",
 "The content of a variant lies inside the variant and is suitably aligned, except that wrapped recursive content is on the heap and that content which can be neither copied nor moved without throwing may be on the heap after an assignment to that variant failed, in a variant with no nothrow default-constructible type. Operations on a variant allocate no memory of their own unless a wrapped or such a throwing type is being put over content of another type, and the content of a variant that is not a target of an operation keeps its address.",
 ["histories","configurations","fault_sequences"],"every history and every combination of element traits, sizes and alignments",
 "No test looks at addresses or counts allocations.",
 [V,D+"backup_holder.hpp"],
 [("make_storage: maximum size and alignment","variant.hpp"),("selection of in-place versus heap backup by element traits","variant.hpp: assign_impl, backup_assigner; visitation_impl.hpp")],
 ["address of the content","operator new calls"]),
]
na=[
P("C15","Misuse is rejected at compile time",
 "Requesting an unlisted type strictly, visiting with a visitor that cannot accept a listed type, or comparing or assigning unsupported operands does not compile.",
 ["programs"],"every ill-formed program","Needs programs that must not compile.",
 ["include/boost/variant/get.hpp",V],[("static assertions and SFINAE constraints","get.hpp, variant.hpp")],["compiler diagnostics"]),
P("C16","Type-level substitution and type lists are computed correctly",
 "The bounded types visible in a recursive or sequence-based variant's type are exactly the listed ones with the recursion tag replaced.",
 ["programs"],"every type list","Purely a type-level function.",
 [D+"substitute.hpp",D+"make_variant_list.hpp",D+"element_index.hpp"],[("substitute metafunction","substitute.hpp")],["types"]),
]
import sys
extra=[]
try:
    from props_extra import extra
except ImportError: pass
with open('/verif/properties.jsonl','w') as f:
    for p in ps+[q(P,V,D) for q in extra]+na:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
