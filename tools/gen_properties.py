#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=mech)))
B="dune/functions/functionspacebases/"
C="dune/functions/common/"
G="dune/functions/gridfunctions/"
K="dune/functions/backends/"
A="dune/functions/analyticfunctions/"

prop("C01","Global multi-indices are unique, contiguous and consistent with sizes",
 "For every basis tree built with the composite, power and dynamic-power factories under every index merging strategy, the multi-indices assigned on the elements of a grid view are pairwise distinct for distinct degrees of freedom, lie within the range reported by size() and size(prefix), leave no gaps below any prefix, and number exactly dimension(). No index is longer than the advertised maximal length and no element has more local degrees of freedom than maxSize().",
 ["inputs","configurations","programs"],
 "all leaf sizes and leaf index ranges (symbolic, up to the bound), all merging strategies, power exponents up to the bound, nested trees up to the bound",
 "Existing tests build a handful of trees with fixed leaf bases on fixed structured grids; an arithmetic slip in one merging strategy or one size(prefix) branch that only shows for another exponent, another nesting or unequal leaf sizes is never sampled.",
 [B+"compositebasis.hh",B+"powerbasis.hh",B+"dynamicpowerbasis.hh",B+"basistags.hh",B+"defaultglobalbasis.hh",B+"defaultlocalview.hh",C+"multiindex.hh",B+"leafprebasismixin.hh"],
 ["size/sizeImpl per merging strategy","indices() per merging strategy","dimension()/maxNodeSize()"])

prop("C02","Container descriptor and created containers match the index tree",
 "The container descriptor of a basis describes exactly the multi-index tree of that basis: at every prefix its number of children equals size(prefix), and leaves appear exactly at complete multi-indices. A container created from a descriptor therefore has an entry for every multi-index of the basis, no extra entries, and is initialised with the requested value.",
 ["inputs","configurations","programs"],
 "all leaf sizes up to the bound, all merging strategies and nestings up to the bound, all initial values",
 "The tests compare a few concrete bases; descriptor shortcuts (uniform vs. static vs. dynamic children, flat merging of nested descriptors) depend on child kinds, exponents and sizes that are not sampled.",
 [B+"containerdescriptors.hh",K+"containerfactory.hh",K+"istlvectorfactory.hh",K+"istlvectorbackend.hh",B+"compositebasis.hh",B+"powerbasis.hh",B+"dynamicpowerbasis.hh"],
 ["containerDescriptor() of each pre-basis","flat merging of descriptors","makeContainer / makeISTLVector / ISTLVectorBackend::resize"])

prop("C03","Local index layout of a bound local view is a bijection",
 "After binding a local view to an element, the leaves of its tree occupy disjoint consecutive ranges of local indices covering exactly 0..size()-1 in tree order, every inner node's offset and size equal the union of its children, node tree indices and tree paths are those of the tree, and index(i) is the global index of the i-th local shape function. This holds again after any sequence of bind, unbind, copy and assignment of local views, and copies do not influence each other.",
 ["inputs","histories","programs"],
 "all leaf node sizes per element (symbolic, up to the bound), all tree shapes up to the bound, all histories of bind/unbind/copy/assign up to the bound",
 "Tests only loop over elements with a single, freshly bound view; offset errors for unequal, empty or element dependent child sizes and aliasing between copied views are not sampled.",
 [B+"nodes.hh",B+"defaultlocalview.hh",B+"subspacelocalview.hh",B+"subspacebasis.hh",B+"defaultglobalbasis.hh"],
 ["initializeTree/bindTree","localIndex offset bookkeeping","LocalView copy/bind"])

prop("C04","Lagrange bases are globally continuous for every numbering and orientation",
 "In every (continuous) Lagrange-type basis two neighbouring elements assign the same global index to a shared node exactly when both local nodes are the same physical point, whatever the vertex numbering, the sub-entity numbering and the local orientation of the two elements. All indices are distinct within an element and the indices used on the grid are exactly 0..size()-1.",
 ["inputs","configurations"],
 "all global vertex orderings, all relative orientations of two elements sharing a face, all sub-entity numberings; element types and orders up to the bound",
 "Tests use structured grids whose elements share few relative orientations (and no unstructured simplex grid is available), so wrong edge/face permutations for other numberings are never exercised.",
 [B+"lagrangebasis.hh",C+"mapperutilities.hh",B+"leafprebasismappermixin.hh",B+"refinedlagrangebasis.hh",B+"hierarchicallagrangebasis.hh",B+"hierarchicallagrangewithelementbubblebasis.hh"],
 ["FaceOrientations / edge and face permutation of interior DOFs","mapper layout and per-entity offsets"])

prop("C05","DOF layout of leaf bases matches their local finite elements",
 "For every leaf basis (Lagrange, Lagrange-DG, refined and hierarchical Lagrange, Rannacher-Turek, Raviart-Thomas, Brezzi-Douglas-Marini, Nedelec, Morley, cubic Hermite, Argyris) and every supported element type and order, the local finite element has node.size() shape functions whose local keys enumerate each sub-entity's degrees of freedom 0,1,2,..., two degrees of freedom share a global index exactly if they belong to the same sub-entity and the same position on it (never across elements for the discontinuous Lagrange basis), and global indices fill 0..size()-1 without gaps. After update(gridView) the basis behaves like one freshly constructed on the new grid view.",
 ["inputs","configurations","histories"],
 "all sub-entity numberings (symbolic), all element types and orders up to the bound, all grid changes followed by update up to the bound",
 "Eighteen test programs need UGGrid and are not built here, the others use one or two structured grids; numbering, order and update behaviour of most leaf bases are therefore untested or sampled once.",
 [B+"lagrangebasis.hh",B+"lagrangedgbasis.hh",B+"refinedlagrangebasis.hh",B+"hierarchicallagrangebasis.hh",B+"hierarchicallagrangewithelementbubblebasis.hh",B+"rannacherturekbasis.hh",B+"raviartthomasbasis.hh",B+"brezzidouglasmarinibasis.hh",B+"nedelecbasis.hh",B+"morleybasis.hh",B+"cubichermitebasis.hh",B+"argyrisbasis.hh",B+"lfeprebasismixin.hh",B+"leafprebasismappermixin.hh",C+"mapperutilities.hh"],
 ["mapper layout","indices() of each pre-basis","update()/initializeIndices()"])

prop("C06","H(div)/H(curl) bases are conforming for all orientations and geometries",
 "For Raviart-Thomas and Brezzi-Douglas-Marini bases the normal component, and for Nedelec bases the tangential component, of every global basis function agrees from both sides of every shared face (up to floating point rounding), for all element geometries and all global vertex numberings. The global-valued shape functions are the Piola transforms of the reference shape functions, and interpolation of a basis function through its own finite element returns the unit vector.",
 ["inputs","configurations"],
 "all vertex orderings, all vertex coordinates of two neighbouring non-degenerate elements, all points on the face; types and orders up to the bound",
 "Tests run on structured grids, mostly axis-parallel, and sample quadrature points; sign errors for other orientations and Piola errors that vanish on axis-parallel cells pass.",
 [B+"raviartthomasbasis.hh",B+"brezzidouglasmarinibasis.hh",B+"nedelecbasis.hh",B+"globalvaluedlocalfiniteelement.hh"],
 ["sign/orientation tables per element","contravariant and covariant Piola transforms","GlobalValuedLocalInterpolation"])

prop("C07","Morley, Hermite and Argyris elements are dual and consistent on any element",
 "For the Morley, cubic Hermite and Argyris bases, on every non-degenerate simplex the transformed shape functions satisfy the Kronecker property with respect to the element's own interpolation, reproduce the full polynomial space, and their jacobian and partial derivatives are the derivatives of their values. Degrees of freedom shared by two elements refer to the same functional (same sign, same scaling) from both sides for every vertex numbering.",
 ["inputs","configurations"],
 "all vertex coordinates of non-degenerate simplices, all evaluation points, all vertex orderings, within stated bounds",
 "None of these bases is compiled by a test that runs here (UGGrid missing); upstream tests sample one mesh.",
 [B+"morleybasis.hh",B+"cubichermitebasis.hh",B+"argyrisbasis.hh",B+"transformedfiniteelementmixin.hh",B+"functionaldescriptor.hh"],
 ["reference shape function coefficient tables","transformation matrices","edge orientation and vertex mesh size data"])

prop("C08","B-spline bases form a partition of unity on any knot vector",
 "For every order, every admissible knot vector and every knot span the local B-spline shape functions are non-negative, sum to one, vanish outside their support and agree with the global basis functions, and their first and second derivatives are the derivatives of the values. Global indices of each span lie in 0..size()-1 and cover it.",
 ["inputs","configurations"],
 "all strictly increasing or repeated (open) knot vectors with symbolic positions, all evaluation points in a span, orders and number of elements up to the bound",
 "The test uses equidistant knots on one grid and sums at a few quadrature points.",
 [B+"bsplinebasis.hh"],
 ["evaluateFunction/evaluateJacobian/evaluateAll Cox-de-Boor recursions","knot span lookup and index offsets"])

prop("C09","Analytic functions evaluate and differentiate exactly",
 "Polynomials, monomial sets and trigonometric functions return the value given by their coefficients or exponents at every argument, and the function obtained as their k-th derivative is the k-th derivative of that value. Monomial sets enumerate every multi-exponent of total degree at most the maximal order exactly once, in a fixed order, and derivatives of every order use the same enumeration.",
 ["inputs"],
 "all coefficient vectors, arguments, degrees, dimensions and derivative orders up to the bound",
 "Tests evaluate a few fixed polynomials at sample points or compare with finite differences in loose tolerances.",
 [A+"polynomial.hh",A+"monomialset.hh",A+"trigonometricfunction.hh"],
 ["Horner evaluation / coefficient differentiation","recursive monomial tabulation"])

prop("C10","Interpolation stores exactly the selected degrees of freedom",
 "interpolate() writes to every coefficient selected by the given mask the value of the corresponding local functional applied to the given function (component selected by the tree path), leaves every unselected coefficient unchanged, and touches no coefficient outside the given (sub-)basis. Interpolating a function that already lies in the discrete space into a basis with an interpolatory finite element reproduces its coefficients.",
 ["inputs","configurations"],
 "all coefficient vectors, all masks, all bases and (sub-)trees up to the bound",
 "Tests interpolate fixed functions with an all-true or single fixed mask on a fixed grid.",
 [B+"interpolate.hh",B+"hierarchicnodetorangemap.hh",B+"subspacebasis.hh",C+"indexaccess.hh"],
 ["per-leaf local interpolation with range component access","bit vector backend lookups"])

prop("C11","Discrete functions evaluate to the linear combination of their basis",
 "A discrete global basis function evaluated in an element equals the sum over the local shape functions of coefficient times shape function value, placed in the range component given by the tree path, and its derivative equals the corresponding sum of global-coordinate gradients. This holds for every coefficient vector, element geometry, point, and any history of bind, unbind and copy of local functions, whether the function owns or references its coefficients.",
 ["inputs","histories","configurations"],
 "all coefficients, all affine element geometries, all local points, all bind/copy histories up to the bound",
 "Tests compare at quadrature points of fixed grids for particular interpolated functions.",
 [G+"discreteglobalbasisfunction.hh",G+"localderivativetraits.hh",B+"hierarchicnodetorangemap.hh",B+"flatvectorview.hh"],
 ["local DOF caching in bind()","leaf evaluation and range mapping","derivative with jacobianInverse"])

prop("C12","Grid functions agree with their definition after any bind history",
 "Local functions of analytic, composed, coarse-on-fine, fine-on-coarse and face-normal grid functions return, at any local coordinate of the bound element, the value the global definition prescribes at the corresponding global point, and bound() reports whether an element is bound. Copying, assigning, re-binding or unbinding one local function never changes the result of another.",
 ["inputs","histories","configurations"],
 "all element geometries, points, function values, and all short histories of bind/unbind/copy/assign",
 "Tests check integrals over one grid with freshly created local functions; most of these headers need grids that are not available here.",
 [G+"analyticgridviewfunction.hh",G+"composedgridfunction.hh",G+"coarsefunctiononfinegridview.hh",G+"finefunctiononcoarsegridview.hh",G+"facenormalgridfunction.hh",C+"geometryinancestor.hh",G+"gridviewfunction.hh",G+"gridviewentityset.hh"],
 ["bind/unbind/bound state","ancestor geometry chain","local function evaluation"])

prop("C13","Fixed-capacity containers and vector views behave like sequences",
 "Every operation of the fixed-capacity containers (reserved deque, overflow array, static multi-indices) and of the vector adapters (flat vector view, dense vector view) has exactly the effect of the same operation on an ideal sequence, for any history of operations within capacity, including front and back insertion and removal, indexing, comparison, iteration, assignment and hashing of equal values.",
 ["histories","inputs"],
 "all operation histories up to the bound with arbitrary element values; all container shapes up to the bound",
 "Tests push and read back one or two fixed sequences.",
 [C+"reserveddeque.hh",C+"overflowarray.hh",C+"multiindex.hh",B+"flatvectorview.hh",C+"densevectorview.hh"],
 ["ring buffer index arithmetic","size bookkeeping and bounds"])

prop("C14","Multi-index access reaches the addressed entry of any nested container",
 "Accessing a nested container by a multi-index, statically or dynamically, with or without run-time index in statically sized levels, returns a reference to exactly the entry reached by applying the index components one after another; writing through it changes that entry and no other. Resizing a vector backend to a basis gives every multi-index an entry, and copying between backends preserves all entries.",
 ["inputs","programs"],
 "all multi-indices and entry values, container nestings up to the bound",
 "Tests access one or two entries in a few container types.",
 [C+"indexaccess.hh",K+"istlvectorbackend.hh",K+"concepts.hh",C+"utility.hh",C+"staticforloop.hh",C+"squeezetensor.hh"],
 ["hybridIndexAccess / resolveStatic/DynamicMultiIndex","forwardToDynamicIndex ranges","ISTLVectorBackend operator[]/resize/assign"])

prop("C15","Type-erased functions own their state like ordinary values",
 "Type-erased functions and the small-object holder beneath them behave like plain values: after any history of construction, copy, move, assignment and destruction every live wrapper forwards to its own copy of the wrapped object, copies are independent, empty wrappers stay empty, and every wrapped object is destroyed exactly once. Small and large wrapped objects behave identically.",
 ["histories","inputs"],
 "all operation histories up to the bound over several wrappers and small/large/empty wrapped objects",
 "Tests construct, copy and move a few wrappers once; buffer/heap transitions, self assignment and empty wrappers are not sampled.",
 [C+"polymorphicsmallobject.hh",C+"typeerasure.hh",C+"differentiablefunction.hh",C+"differentiablefunctionfromcallables.hh",C+"localfunction.hh",G+"gridfunction.hh",C+"differentiablefunction_imp.hh"],
 ["buffer vs heap placement","clone/move/destroy bookkeeping"])

prop("C16","Periodic and transformed index bases identify exactly the requested DOFs",
 "In a periodic basis two degrees of freedom get the same global index exactly if the user declared them (directly or through a chain) as equivalent, and the resulting indices are consecutive from zero with size(), dimension and container descriptor agreeing. In a transformed-index basis every index, size and descriptor is exactly what the user supplied transformation prescribes for the index of the wrapped basis.",
 ["inputs","histories"],
 "all sets of identified index pairs and all insertion orders up to the bound; all transformations",
 "The tests identify one fixed set of boundary vertices of a structured grid.",
 [B+"periodicbasis.hh",B+"transformedindexbasis.hh"],
 ["index unification table","index transformation forwarding"])

prop("C17","Subdomains expose exactly the inserted entities with consistent indices",
 "A subdomain contains exactly the inserted elements and all their sub-entities, assigns every contained sub-entity of each codimension and type a consecutive index starting at zero that is the same seen from every element, reports matching sizes, and iterates exactly over the contained elements and intersections. A basis restricted to a subdomain has exactly the degrees of freedom of the subdomain's elements, and none on elements outside of it.",
 ["inputs","histories","configurations"],
 "all subsets of elements and insertion orders on meshes up to the bound, all sub-entity numberings",
 "The tests use one or two subdomains of structured grids (and UGGrid variants are not built).",
 [C+"subdomain.hh",B+"restrictedbasis.hh"],
 ["subdomain index map construction","contains()/iteration filters","restricted local views and empty nodes"])

prop("C18","Sub-entity and boundary DOF enumeration is exact",
 "The local indices reported for a sub-entity or an intersection are exactly those local degrees of freedom attached to that sub-entity or to a sub-entity contained in it, each once, for every tree of bases and element type. The boundary DOF loop visits exactly the degrees of freedom attached to the closure of boundary faces.",
 ["inputs","configurations"],
 "all element types, faces and sub-entities, all bases up to the bound, all boundary markings",
 "Tests count boundary indices on one structured grid.",
 [B+"subentitydofs.hh",B+"boundarydofs.hh"],
 ["containment table of sub-entities","loop over leaf local keys"])
import sys
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p)+"\n")
print(len(P))
