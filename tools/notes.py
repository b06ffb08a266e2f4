B = " Assumes the trait Shape/Material API of the crate is used as intended; inputs whose true answer lies within f32 rounding of a decision boundary are skipped and counted."
NOTE.update({
"C01": ("property-based testing: generated scenes and rays, differential against shape-by-shape search",
        "Searches generated scenes (eight arrangements up to some hundred shapes) and rays incl. axis-parallel, in-plane and limited ones; nearest hit of tree and list compared with exhaustive search." + B),
"C02": ("property-based testing: differential between occlusion and nearest-hit queries",
        "Agreement of both query kinds and with exhaustive search, limits moved across hits; single shapes and containers." + B),
"C03": ("property-based testing: f64 reference intersection", "Ray/triangle results compared with an f64 model with an error budget derived from f32 rounding." + B),
"C04": ("property-based testing: f64 reference intersection", "Ray/sphere results compared with an f64 model with an error budget derived from f32 rounding." + B),
"C05": ("property-based testing: invariant over generated closed meshes", "Rays aimed at vertices, edges and anywhere from inside closed meshes must hit; through flat list and tree." + B),
"C06": ("property-based testing: invariants and f64 visibility model", "Rays spawned from generated hits never re-hit their surface; shadow tests compared with an f64 visibility model." + B),
"C07": ("property-based testing: geometric invariants of reported frames", "Normals, tangents and orientation of hits and samples on generated triangles (with vertex normals) and spheres (with poles)." + B),
"C31": ("property-based testing: f64 slab model and box algebra", "Ray/box test, box algebra and shape bounds compared with direct definitions." + B),
})
NOTE.update({
"C08": ("property-based testing: f64 matrix model and algebraic laws", "Compositions of all transform constructors on points, vectors, normals, rays, hits and boxes against f64 matrices with elementwise error bounds; inverse round trips." + B),
"C09": ("property-based testing: f64 pinhole camera model", "Generated cameras and film positions; ray origin, direction and normalisation against an f64 pinhole model." + B),
})
NOTE.update({
"C10": ("property-based testing: number-theoretic reference model", "Generated films, pixel orders, sample numbers up to the 32-bit index limit and all 1024 dimensions against an exact model; index set of whole small films." + B),
"C11": ("property-based testing: stateful model of the sampler protocol", "Operation histories with clones and restarts for both samplers; uniformity of the random sampler by two-stage chi-square." + B),
"C32": ("property-based testing: local area scale and coverage of warps", "Numerical Jacobians against stated densities, stratified coverage of the targets, frame and weight algebra." + B),
})

NOTE.update({
"C12": ("property-based testing: consistency of sampling and evaluation, density experiments", "Generated materials, frames and sample points: density and value of every sample against separate evaluation; two-stage statistical test of the sampled directions against the reported density." + B),
"C13": ("property-based testing: algebraic invariants and energy experiments", "Finite non-negative values, reciprocity with the squared index ratio, and importance-sampled albedo at most one, two-stage statistical decision." + B),
"C14": ("property-based testing: f64 reference scattering models", "Every lobe against f64 Lambert and Trowbridge-Reitz/Smith/Fresnel models with condition-based tolerances, both sides, anisotropic; projected-area normalisation." + B),
"C15": ("property-based testing: f64 Fresnel and Snell models", "Specular lobes of all materials: direction, weight, choice probability, total internal reflection, energy split." + B),
"C26": ("property-based testing: reference lobe assembly", "Materials with spatially varying textures, negative, zero and large values, compared lobe by lobe with a reference assembly." + B),
})
NOTE.update({
"C16": ("property-based testing: f64 solid-angle model", "Area lights of any shape and winding: sampled directions, densities per solid angle, emitting side, queried densities; uniform coverage of the light; shadow tests with a blocker anywhere on the way, beside it or beyond; distant lights with shadow tests against exhaustive search." + B),
})
NOTE.update({
"C17": ("property-based testing: statistical comparison with an independent f64 integral", "Generated receivers of every material, lights, occluders and samplers; average of the rendered image against form factors or a jittered f64 integral with exact visibility; two-stage decision." + B),
"C18": ("property-based testing: statistical furnace test", "Generated closed rooms with mirror and glass objects; average radiance against emission / (1 - reflectance), two-stage decision." + B),
"C19": ("property-based testing: f64 ray tree reference", "Chains of mirrors must be exact in every pixel; trees of reflections and refractions and long corridors against the full f64 ray tree; scenes of scattering surfaces seen in a specular one against separate renders along its ways." + B),
"C20": ("property-based testing: f64 film model", "Generated films, filters, tilings, sample positions and radiances; the written image against an f64 weighted average with rounding bounds." + B),
"C21": ("property-based testing: metamorphic relation over tilings and merge orders", "The same samples through different tilings and orders of merging; tile boxes and partition of the film." + B),
"C22": ("property-based testing: reference sRGB encoder and PPM parser", "Written images parsed strictly and compared with the sRGB curve around every level boundary." + B),
})
NOTE.update({
"C23": ("property-based testing: generated file histories and injected write faults", "Sequences of renders over generated previous contents; file size limits at any byte, full device, directory and links in place of the file, destinations taking pieces or failing; exact comparison of what a returning render left." + B),
"C24": ("property-based testing: generated schedules against an f64 picture and exact counts", "Turns, convoys and stalls imposed at sampler calls, 1 to 255 threads, three samplers; every position counted, every pixel against the f64 film model; full scenes against one thread; termination by time-out." + B),
"C30": ("property-based testing: whole renders of generated scenes with extreme sample values", "Generated scenes of every material and shape, empty ones, cameras in and on surfaces, extreme random numbers; no panic, no discarded sample, a complete picture, termination by time-out." + B),
})
NOTE.update({
"C25": ("property-based testing: direct definition of the patterns", "Generated mappings (scales, shifts, compositions of transforms with error bounds) and points, negative cells and whole numbers included, free and on real hits." + B),
"C27": ("property-based testing: model of the builder's contents", "Generated orders of shapes, area lights, distant and own lights; contents received by the container, lights of the scene, recognition of hit emitters, extents told, shadow tests of distant lights against exhaustive search." + B),
"C28": ("property-based testing: differential against triangles built alone", "Generated vertex and index arrays with and without normals; every triangle bit for bit the same as built on its own, on rays, limits and samples." + B),
"C29": ("property-based testing: metamorphic relations of whole pictures", "Scaled emission and exchanged channels pixel by pixel with the same random numbers; sums of emitters, rigid motion and change of unit on average, one shining lamp among up to 300, two-stage decision." + B),
})
NOTE.update({
"C33": ("property-based testing: f64 definitions of every operator", "Every operator, assigning form, product, conversion and access of vectors, points, normals, colours and axes against its definition, on components of mixed magnitudes, zeros and ties." + B),
"C34": ("property-based testing: float ordering and algebraic relations of roots", "Neighbours against the ordering of bit patterns for floats of every class; roots against residual, sum, product and exact integer discriminants; other helpers against their definitions." + B),
"C35": ("property-based testing: direct definition of the pixel sequence", "Boxes of any corners, size and position, near the limits of i32, compared pixel by pixel with the row-major sequence; conversions." + B),
"C36": ("property-based testing: chi-square tests over generated request histories", "Samplers used with generated patterns of requests; uniformity per position and per pair, low digits, dependence at many lags, two samplers against each other; limits chance does not reach." + B),
"C37": ("property-based testing: metamorphic relations between descriptions of one scene", "Orders, containers, first corners, windings, cut triangles and lamps, split distant lights, layers of close surfaces in any order; averages with a two-stage decision, orders pixel by pixel with the same random numbers." + B),
"C38": ("property-based testing: differential against an independent path tracer", "Generated open scenes and closed rooms of all materials and lights; pixel averages against a path tracer in double precision written from the models (own intersection, own sampling), two-stage decision with a second, better reference." + B),
})
