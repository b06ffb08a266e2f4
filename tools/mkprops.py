#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to regenerate)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":w} for n,w in state]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Nearest hit found by the k-d tree is the nearest hit over all shapes",
"For every scene, ray, ray length limit and tree depth limit, asking the k-d tree for the closest intersection gives the same answer as testing every shape one by one: a hit exists in one exactly when it exists in the other, at the same distance and on the same shape (up to ties and rounding). The result names the shape that was hit and never lies beyond the ray's limit.",
["inputs","configurations"],"all shape sets (1 to thousands of spheres/triangles/area lights, clustered, overlapping, coplanar, axis-aligned, flat), all rays (axis parallel, zero direction components, origins inside, outside, on split planes), all limits, all maximum depths",
"The repository has no test of the tree at all; correctness depends on cost-driven splits, bad-refine counters and traversal order that only appear for many shapes in particular arrangements.",
["src/container_kdtree.rs","src/container_simple.rs","src/bbox.rs","src/shape.rs"],
[("k-d tree construction","KdTree::new / KdTree::build"),("nearest-hit traversal","Container::intersect for KdTree"),("reference","Container::intersect for Simple")],
[("node array","split planes and leaves with shared shapes")])

p("C02","Any-hit queries agree with nearest-hit queries",
"For every scene and bounded or unbounded ray, the yes/no occlusion query answers yes exactly when the closest-hit query on the same ray returns a hit, for every kind of shape, for the k-d tree and for the flat list. Shrinking the limit below the first hit distance turns both answers to no.",
["inputs"],"all shapes, scenes, rays and ray length limits",
"No test calls the occlusion query on a container or on a triangle; the two queries are separate copies of the same code, so they can drift apart for particular rays only.",
["src/container_kdtree.rs","src/container_simple.rs","src/shape_triangle.rs","src/shape_sphere.rs"],
[("any-hit","Container::intersect_p, Shape::intersect_p"),("nearest-hit","Container::intersect, Shape::intersect")])

p("C03","Triangle intersection is geometrically exact",
"A ray is reported to hit a triangle exactly when the true line segment from its origin to its limit crosses the triangle, whichever side it comes from, whatever the ray direction's length and the triangle's winding; the reported distance parameter and point are the true ones up to rounding. The reported outgoing direction is the reversed ray direction, and the triangle's area and bounding box are those of its three vertices.",
["inputs"],"all non-degenerate triangles and rays over many orders of magnitude, including axis-parallel rays, rays whose largest component is any of x, y, z with either sign, and limits just before or after the hit",
"There is no triangle intersection test in the repository.",
["src/shape_triangle.rs","src/vector.rs","src/ray.rs"],
[("ray-space edge test","Triangle::intersect / intersect_p"),("distance lower bound","delta_t test"),("axis permutation","max_abs_axis, permute")])

p("C04","Sphere intersection is geometrically exact",
"A ray is reported to hit a sphere exactly when the true segment from its origin to its limit meets the surface, from outside or from inside, and the reported point is the first such crossing, lies on the surface and equals the ray position at the reported distance parameter up to rounding. The surface area and the bounding box are those of the sphere.",
["inputs"],"all centres, radii, ray origins (inside, outside, far away, on the surface), unnormalised directions and limits",
"The single unit test checks six fixed rays against one unit sphere.",
["src/shape_sphere.rs","src/common.rs"],
[("quadratic root selection","Sphere::has_intersection, quadratic"),("hit refinement","Sphere::compute_interaction")])

p("C05","Closed triangle meshes are watertight",
"A ray that starts inside a closed triangle mesh always hits the mesh, and a ray from outside aimed at the interior of the mesh always hits it, even when the ray passes exactly through an edge or a vertex shared by several triangles. This holds when the triangles are queried directly and through the k-d tree.",
["inputs"],"all closed meshes (perturbed, scaled, translated, axis aligned), all ray origins inside, all directions including those aimed at edges and vertices",
"No test intersects a mesh; leaks only appear for rays that pass within rounding error of shared edges.",
["src/shape_triangle.rs","src/container_kdtree.rs"],
[("shared-edge sign convention","edge functions e0,e1,e2 in Triangle::intersect"),("node slack","BBox3f::intersect t_far factor")])

p("C06","Secondary rays leave their surface and shadow rays see exactly the occluders",
"A ray spawned from any reported surface point, into either side of the surface, does not immediately re-hit the same flat or convex surface it leaves, and it starts within rounding distance of that point. A visibility test between two surface points reports them mutually visible exactly when no other shape crosses the segment between them, so neither end point ever shadows itself.",
["inputs"],"all surfaces, hit points, spawn directions (down to grazing), scales and distances from the origin, and all occluder placements",
"No unit test spawns a ray; self-intersection is a rounding effect that depends on magnitude and orientation of the geometry.",
["src/interaction.rs","src/light.rs","src/shape_sphere.rs","src/shape_triangle.rs","src/common.rs"],
[("origin offset from error bounds","Interaction::offset_ray_origin, next_float_up/down"),("shadow segment","Interaction::spawn_ray_to, VisibilityTester::unoccluded"),("error bounds","p_err in intersect and sample")])

p("C07","Reported surface frames are valid and consistently oriented",
"At every hit, the geometric and shading normals are finite unit vectors on the same side of the surface, the first tangent is finite, non-zero and perpendicular to the shading normal, and the parametric coordinates are those of the hit point; sphere normals point outward, flat triangle normals follow the vertex winding, interpolated vertex normals are honoured and the reverse-orientation switch flips the surface. A point sampled on a shape reports the same geometric normal as a ray that hits the shape at that point.",
["inputs"],"all triangles (with and without vertex normals, both orientations, including vertex normals that cancel out), all spheres including both poles, and all rays",
"The sphere test looks at four normals at generic points; frames at poles, with vertex normals or with reversed orientation are never built.",
["src/shape_triangle.rs","src/shape_sphere.rs","src/reflection.rs","src/vector.rs"],
[("triangle frame","Triangle::intersect dpdu/dpdv/n/sn"),("sphere frame","Sphere::compute_partial_derivative, uv"),("sampled normal","Triangle::sample")])

p("C08","Transforms obey matrix algebra and are exactly undone by their inverses",
"Every transform maps points, vectors, normals, rays and boxes as its 4x4 matrix prescribes (normals stay perpendicular to mapped tangents, boxes contain all mapped contents, ray limits are kept), a product acts as the right factor followed by the left one, and the inverse undoes it up to rounding. Translation, scaling, rotation by degrees, look-at and perspective build the standard matrices.",
["inputs","programs"],"all compositions of translations, scalings, rotations, look-at, perspective and arbitrary well-conditioned matrices, applied to all points, vectors, normals, rays and boxes",
"Three unit tests check single hand-picked matrices by exact equality; normals, rays, boxes, rotations, perspective and inverses of general matrices are not covered.",
["src/transform.rs","src/matrix.rs","src/bbox.rs"],
[("composition","Mul for Transform and Matrix"),("inverse","Matrix::inverse, m_inv bookkeeping"),("per-type application","Transformable impls")])

p("C09","The perspective camera is an ideal pinhole",
"For every film position, the generated ray starts at the camera position with a unit direction, passes through the point of the image plane that projects back to that film position, and is unlimited. Film x grows to the right of the screen window, film y grows downwards from its top edge, and the field of view angle spans screen coordinates -1 to 1.",
["inputs","configurations"],"all camera poses, fields of view, clip planes, screen windows, resolutions and film positions (including outside the film)",
"No test builds a camera.",
["src/camera.rs","src/transform.rs"],
[("raster to camera","PerspectiveCamera::new"),("ray generation","PerspectiveCamera::generate_ray")])

p("C10","Halton samples are the Halton sequence, stratified per pixel",
"In every pixel, the k-th sample is one fixed point of the Halton sequence: its first two coordinates place the global sequence's point inside that pixel (within the repeating 128x128 block), successive samples advance by the same stride, and every further dimension is the radical inverse of that point's index in the next prime base. All values lie in [0,1).",
["inputs","histories","configurations"],"all film sizes, pixels (also negative and beyond 128), sample numbers and all 1024 dimensions, for every order of pixels, sample advances and dimension requests",
"One unit test evaluates the radical inverse of three integers in base 10; pixel offsets, modular inverses, large bases and the state machine are untested.",
["src/sampler_halton.rs"],
[("pixel offset by Chinese remainder","get_index_for_sample, multiplicative_inverse, inverse_radical_inverse"),("radical inverse table","radical_inverse_prime, radical_inverse")],
[("cached pixel offset","offset reused while the pixel does not change")])

p("C11","Samplers deliver exactly the requested samples, in range and in the pixel",
"After starting a pixel, a sampler provides exactly the requested number of samples per pixel (at least one), every requested value lies in [0,1), and the camera sample lies inside the pixel it was requested for. Restarting a pixel or starting another one resets the count, and a clone is independent of the original.",
["histories","configurations"],"all sequences of pixel starts, sample advances, 1D/2D/camera requests and clones, for both samplers and every samples-per-pixel setting",
"No test drives a sampler through its protocol.",
["src/sampler.rs","src/sampler_halton.rs","src/sampler_random.rs"],
[("sample counting","start_pixel, start_next_sample"),("camera sample","Sampler::get_camera_sample")])

p("C12","Scattering samples follow their reported densities and values",
"For every material and outgoing direction, a sampled non-specular direction is distributed with the density the material reports for that direction pair, the density and value returned with the sample equal the ones reported when evaluated separately, and the density integrates to at most one over all directions. Sampling therefore estimates the reflected light without bias.",
["inputs","configurations"],"all materials, roughnesses (isotropic and anisotropic), indices of refraction, outgoing directions on both sides, shading frames tilted against the surface, and all sample points",
"No test samples a material.",
["src/reflection.rs","src/microfacet.rs","src/bxdf_lambertian_reflection.rs","src/bxdf_microfacet_reflection.rs","src/bxdf_microfacet_transmission.rs","src/sampling.rs"],
[("lobe choice and mixture","BSDF::sample_f, BSDF::pdf"),("half-vector sampling","MicrofacetDistribution::sample_wh, pdf"),("lobe sampling","BxDF::sample_f, BxDF::pdf")])

p("C13","Scattering is non-negative, reciprocal and conserves energy",
"For every material with reflectances of at most one (for plastic: diffuse and glossy together), values and densities are finite and never negative, reflection is unchanged when the two directions are swapped, and transmission changes only by the squared ratio of refractive indices. The light scattered from any incoming direction never exceeds the light that arrives.",
["inputs","configurations"],"all materials, roughnesses, indices and direction pairs on both sides of the surface, down to grazing angles",
"No test evaluates a material.",
["src/reflection.rs","src/bxdf_lambertian_reflection.rs","src/bxdf_microfacet_reflection.rs","src/bxdf_microfacet_transmission.rs","src/bxdf_specular_transmission.rs","src/fresnel.rs","src/microfacet.rs"],
[("lobe evaluation","BxDF::f"),("side selection","BSDF::f"),("masking-shadowing","MicrofacetDistribution::g")])

p("C14","Diffuse and rough surfaces scatter exactly as their published models",
"Diffuse reflection is reflectance over pi in the reflecting hemisphere and zero elsewhere; rough metal, plastic and glass reflect and transmit as the Trowbridge-Reitz microfacet model with Smith shadowing and exact Fresnel terms prescribes, for both sides of the surface and both orientations of anisotropy. Every microfacet normal distribution integrates to one over projected area.",
["inputs","configurations"],"all roughness pairs, indices, absorption coefficients, reflectances and direction pairs on both sides",
"No test evaluates a lobe; errors show up only as subtly wrong shading.",
["src/bxdf_lambertian_reflection.rs","src/bxdf_microfacet_reflection.rs","src/bxdf_microfacet_transmission.rs","src/microfacet.rs","src/fresnel.rs","src/reflection.rs"],
[("normal distribution","MicrofacetDistribution::d"),("shadowing","lambda, g1, g"),("reflection","MicrofacetReflectionBRDF::f"),("transmission","MicrofacetTransmissionBTDF::f")])

p("C15","Mirrors and smooth glass obey the laws of reflection, refraction and Fresnel",
"A smooth mirror, metal, plastic coat or glass sends light exactly into the mirror direction or the Snell refraction direction, weighted by the exact Fresnel reflectance for dielectrics or conductors, from either side of the surface. Reflected plus transmitted power is one for lossless glass, beyond the critical angle everything is reflected, the coat of plastic is an interface from air to an index of 1.5, and each available lobe is chosen with equal probability.",
["inputs","configurations"],"all indices (above and below one), absorption coefficients, incident angles from both sides and tints",
"No test covers the Fresnel formulas or the specular lobes.",
["src/bxdf_specular_reflection.rs","src/bxdf_specular_transmission.rs","src/fresnel.rs","src/reflection.rs","src/material_mirror.rs","src/material_glass.rs","src/material_metal.rs","src/material_plastic.rs"],
[("mirror direction","SpecularReflectionBRDF::sample_f"),("Snell refraction","refract, SpecularTransmissionBTDF::sample_f"),("Fresnel","fr_dielectric, fr_conductor")])

p("C16","Light samples are correct points, directions and solid-angle densities",
"Sampling an area light from a point yields points spread uniformly over its surface, the unit direction towards the sampled point, emitted radiance only when the emitting side faces the receiver, and the density of that direction per unit solid angle; querying the density of a direction gives the same number, and zero when the direction misses the light. Its shadow test reports exactly the blockers strictly between the two points, however close to either end, never the light itself or anything beyond. A distant light always yields its fixed direction and radiance with certainty and a shadow test that reaches beyond the whole scene.",
["inputs"],"all light triangles (any size, orientation and winding), receiver positions, directions, sample points, and scenes around a distant light",
"No test touches a light.",
["src/light.rs","src/shape.rs","src/shape_triangle.rs"],
[("area sampling","Triangle::sample"),("density","Shape::pdf"),("area light","AreaLight::sample_li, pdf_li, l"),("distant light","DistantLight::sample_li, pre_process")])

p("C17","Direct lighting converges to the analytic illumination",
"The rendered brightness of an unoccluded surface lit by area and distant lights equals, on average, the exact reflected radiance (polygon form factor for diffuse surfaces, numerical integral of the reported scattering for glossy ones), light that is behind the surface, occluded or on the dark side of the emitter contributes nothing. The expectation does not depend on which sampler, which number of lights, or which light is picked.",
["inputs","configurations"],"all placements of receiver, lights and occluders, materials, light intensities and numbers of lights",
"The repository has no rendering test; bias in the estimator is invisible without an analytic reference.",
["src/integrator.rs","src/light.rs","src/shape.rs","src/sampling.rs","src/reflection.rs"],
[("light and scattering sampling combined","estimate_direct, power_heuristic"),("light choice","uniform_sample_one_light")])

p("C18","Global illumination converges to the exact equilibrium in closed rooms",
"In a closed room whose walls all emit the same radiance and reflect the same fraction of light, every camera ray sees emitted radiance divided by one minus that fraction, on average, whatever the room's shape, and lossless mirrors or glass placed inside remain invisible. Random path termination does not change the average.",
["inputs","configurations"],"all closed room shapes, wall reflectances and emissions (per colour channel), viewpoints, and lossless mirror, smooth glass or rough objects inside",
"No test renders; multi-bounce energy errors (throughput, path termination, double counting) need a closed-form reference to be seen.",
["src/integrator.rs","src/reflection.rs","src/light.rs","src/bxdf_specular_transmission.rs"],
[("path loop","li"),("path termination","beta and q in li"),("emission on first and specular hits","li")])

p("C19","Every emitter seen directly or by mirrors and glass counts exactly once",
"A camera ray that reaches an emitter directly, or through any chain of mirror reflections and smooth refractions, records exactly the emitted radiance times the product of the chain's attenuations, once per path; an emitter seen from its dark side or by no path contributes nothing. Long chains up to the bounce limit keep the right average in spite of random path termination. What a mirror or smooth glass shows of scattering surfaces is the radiance seen along its ways, light on those surfaces counted once.",
["inputs","configurations"],"all chains of specular surfaces in front of emitters, tints, emitter orientations and chain lengths",
"No test renders a specular scene.",
["src/integrator.rs","src/light.rs","src/bxdf_specular_reflection.rs","src/bxdf_specular_transmission.rs"],
[("specular emission","specular_bounce in li"),("direct lighting of specular lobes","estimate_direct")])

p("C20","Pixels are the filter-weighted average of the samples around them",
"Every pixel's value is the average of exactly the samples within the filter radius of its centre, weighted by the filter at their (tabulated) offsets in x and y, including samples that fall outside the image or into other tiles. A constant image stays constant, and scaling all samples scales all pixels.",
["inputs","histories","configurations"],"all resolutions, filters (also asymmetric ones), radii, and multisets of sample positions and values",
"The only film test counts tiles for radius zero.",
["src/film.rs","src/filter.rs"],
[("filter table","Film::new"),("splatting","FilmTile::add_sample"),("accumulation","Pixel::merge, merge_film_tile")])

p("C21","Tiles partition the sampling area and merging them loses nothing",
"The tiles handed out cover every sampled pixel position exactly once, for every resolution and filter radius, and each tile is large enough for every pixel its samples can influence. The final image is the same whichever way the work is divided into tiles and in whichever order tiles are merged.",
["inputs","schedules","configurations"],"all resolutions (including those smaller than a tile or not multiples of it), filter radii and merge orders",
"One test lists the tiles of a 40x40 film with radius zero; overlap between tiles and clipping at the border are untested.",
["src/film.rs","src/bbox.rs"],
[("tile iterator","FilmTileIter"),("tile extent","Film::get_film_tile, Film::sample_bbox"),("merge","Film::merge_film_tile")])

p("C22","The written image is a valid PPM with correctly rounded sRGB values",
"The output is a plain PPM of the film's resolution with one triple per pixel in row order, each the sRGB encoding of the pixel's linear colour clamped to [0,1] and rounded to the nearest of 256 levels. Black is 0, white is 255, brighter never gives a smaller number and the three channels are independent.",
["inputs","configurations"],"all resolutions and linear colours including zero, huge values and pixels without samples",
"No test writes an image.",
["src/film.rs"],
[("encoding","Film::write_image_ppm, gamma_correct")])

p("C23","The output file holds exactly the rendered image or the failure is reported",
"After a render the output file contains exactly the new image, whatever the file contained before. If the image cannot be written completely, the render does not finish as if it had succeeded.",
["fault_sequences","histories","configurations"],"all previous contents (absent, shorter, longer), sequences of renders of different sizes, and write failures at any point (device full, unwritable path)",
"No test renders to a file or injects a write failure.",
["src/integrator.rs","src/film.rs"],
[("output","Integrator::render"),("writer","Film::write_image_ppm")])

p("C24","The image does not depend on the number of threads or their schedule",
"For a deterministic sampler the same scene renders to the same image (up to summation rounding) with any number of threads and any interleaving of their work, run after run, and every pixel position is sampled exactly the requested number of times. A render with several threads always terminates.",
["schedules","configurations"],"all thread counts, and all orders in which threads pick up and finish tiles (forced by gates inside camera calls)",
"No test renders, and thread interleavings cannot be sampled by ordinary tests.",
["src/integrator.rs","src/film.rs","src/sampler_halton.rs"],
[("work distribution","Integrator::render"),("merge under lock","Film::merge_film_tile")],
[("tile queue","shared iterator behind a lock")])

p("C25","Textures evaluate their pattern at the mapped position",
"A constant texture is the same everywhere; a checkerboard alternates with the parity of the mapped integer cell over the whole plane or space, including negative coordinates. The planar mapping scales and shifts the surface's parametric coordinates and the spatial mapping applies its transform to the hit position.",
["inputs","configurations"],"all surface points, scales, offsets, transforms and texture values",
"No test evaluates a texture.",
["src/texture.rs"],
[("parity","CheckerboardTexture, Checkerboard3DTexture evaluate"),("mappings","UVMapping2D::map, IdentityMapping3D::map")])

p("C26","Materials are built from their textures at the hit point",
"Every material evaluates its textures at the surface point being shaded, ignores negative reflectances, offers exactly the lobes its parameters call for (black components are absent, zero roughness is specular) and scales each lobe by its own colour. In particular roughness along the two tangents, refraction index, absorption and the different colours are never confused with one another.",
["inputs","configurations"],"all materials and texture parameters (constant or spatially varying, negative, zero, above one)",
"No test builds a material.",
["src/material_glass.rs","src/material_metal.rs","src/material_plastic.rs","src/material_mirror.rs","src/material_lambertian_reflection.rs","src/texture.rs"],
[("lobe assembly","Material::compute_scattering"),("clamping","Spectrum::clamp")])

p("C27","Building a scene keeps everything that was added",
"The built scene contains every added shape, area light and other light exactly once, whatever the order of additions; an area light is both visible geometry and a light, and the emitter hit by a ray is recognised as the very light that was added. Distant lights know the extent of all shapes and area lights, so no object in the scene is missed by their shadow test.",
["programs","histories"],"all sequences of additions of shapes, area lights and distant lights, and both containers",
"No test builds a scene.",
["src/scene.rs","src/light.rs","src/common.rs"],
[("assembly","Builder::construct"),("identity of light and shape","same_addr"),("scene extent","Light::pre_process")])

p("C28","Triangle meshes expand to exactly the indexed triangles",
"A mesh of vertices and index triples yields one triangle per triple, in order, with exactly the indexed vertices, winding and material, and with the indexed vertex normals when normals are given for every face. Every triangle behaves like the same triangle built on its own.",
["inputs","configurations"],"all vertex arrays, index lists (shared, repeated), optional normals and normal index lists of sufficient or insufficient length",
"No test builds a mesh.",
["src/shape_triangle.rs"],
[("expansion","Triangle::new_triangle_mesh")])

p("C29","Rendered light is additive and proportional to the emitters",
"Rendering with two sets of emitters together equals, on average, the sum of rendering with each set alone; scaling all emitters scales the image by the same factor, and colour channels do not influence one another when surfaces treat them alike. Moving camera and scene together, or changing the unit of length, leaves the image unchanged.",
["inputs","configurations"],"all scenes, splits of lights into sets, scale factors, rigid motions and length units",
"No test renders; these relations compare pairs of renders.",
["src/integrator.rs","src/light.rs","src/scene.rs","src/camera.rs"],
[("estimator","li, uniform_sample_one_light, estimate_direct")])

p("C30","Any valid scene renders without crashing or discarding samples",
"Every scene made of valid parts (including empty scenes, lights only, black materials, grazing views, poles of spheres and degenerate interpolated normals) renders to completion with any positive thread count, and no sample comes out as an invalid (negative, infinite or not-a-number) radiance as long as the weight its path gathers stays within the range of f32. No render aborts the process or hangs.",
["inputs","configurations"],"all combinations of shapes, materials, textures, lights, cameras, samplers, containers, resolutions and filters",
"The only end-to-end exercise of the program is an example that is not run by the tests.",
["src/integrator.rs","src/scene.rs","src/container_kdtree.rs","src/shape_sphere.rs","src/shape_triangle.rs","src/reflection.rs"],
[("invalid radiance filter","IntegratorLocal::render"),("whole pipeline","Integrator::render")])

p("C31","Bounding volumes contain what they bound and ray-box tests are conservative",
"Every shape lies inside its bounding box, unions contain their operands, a scene's bounding sphere contains its box, and box queries (containment, overlap, extent, surface area) are exact. The ray-box test never misses a box that the ray's segment really meets, even when the ray lies in a face or has zero direction components, and reports the true entry and exit parameters up to rounding.",
["inputs"],"all boxes (also flat ones), rays (also with zero or negative-zero direction components and origins on faces), limits and points",
"No test covers the 3D box.",
["src/bbox.rs","src/shape_sphere.rs","src/shape_triangle.rs"],
[("slab test","BBox3f::intersect"),("box algebra","union, union_point, bbox_of_shapes, max_extent, bounding_sphere")])

p("C32","Random warps produce the distributions they stand for",
"The disk, cosine-hemisphere, triangle and microfacet warps map the unit square onto exactly their target domain with the stated density (equal areas map to equal measure), and two-strategy weights are non-negative and sum to one. Orthonormal frames built around any unit vector are orthonormal and right-handed.",
["inputs"],"all points of the unit square including its border, all roughness pairs, all density pairs and all unit vectors",
"No test covers sampling routines.",
["src/sampling.rs","src/microfacet.rs","src/shape_triangle.rs","src/vector.rs"],
[("disk and hemisphere","concentric_sample_disk, cosine_sample_hemisphere"),("weights","power_heuristic"),("frame","construct_coordinate_system")])

p("C33","Vector, point, normal and colour arithmetic means what it says",
"Sums, differences, products and quotients of vectors, points, normals and colours, with each other or with numbers, in plain and in assigning form, in the plane and in space, act on each component with the result of ordinary arithmetic up to rounding; a point minus a point is a vector and a point plus a vector a point. Negation, absolute value, length, unit vector, dot and cross product, distance, component-wise minimum and maximum, floor and ceiling, the greatest component, the axis of the component of largest magnitude, permutation of components, access by number or by axis, and conversions between the kinds follow their definitions. Each axis' next, previous and other axes are the right ones. A colour is black exactly when all its channels are zero; its luminance is the Rec. 709 weighted sum of its channels, its square root and clamping act on each channel, and a colour made from a number is grey.",
["inputs"],"all finite components for which no intermediate result leaves the range of f32, including zeros of both signs, equal components and mixed magnitudes; integer components that do not overflow",
"No test covers vectors or colours; one wrong component in one of some hundred generated operators only shows for inputs whose components differ.",
["src/vector.rs","src/vector_macro.rs","src/spectrum.rs","src/axis.rs"],
[("operators","impl_vector3f_*, impl_vector2_* macros"),("products, axes, permutation","Vector3f, Point3f, Point2 methods"),("colour","Spectrum methods")])

p("C34","Neighbouring floats, quadratic roots and other scalar helpers are exact",
"The next float up (down) of any number, zeros of both signs and denormal numbers included, is the smallest float greater (greatest float smaller) than it; infinities stay or step back to the largest finite number. The quadratic solver returns roots exactly when they exist, in ascending order, accurate to rounding even when they are close together or of very different size. Clamping, linear interpolation and the rounding-error bound gamma equal their definitions.",
["inputs"],"all floats; all quadratics with real coefficients of any size and sign (leading coefficient not zero, not all lower ones zero)",
"No test covers the scalar helpers; their special cases (zeros, denormals, sign changes, cancellation) sit at single inputs.",
["src/common.rs"],
[("neighbours","next_float_up, next_float_down"),("roots","quadratic"),("others","clamp, lerp, gamma")])

p("C35","Pixel boxes are visited pixel by pixel, each exactly once",
"A two-dimensional box made from any two opposite corners holds the smaller coordinates as minimum and the larger as maximum; its diagonal and area follow from them. Iterating an integer box yields each pixel with minimum <= p < maximum exactly once, row by row and from left to right, and then ends for good; an empty box yields nothing. Conversions between integer, unsigned and real boxes keep the corners (real coordinates truncated).",
["inputs"],"all boxes, also empty, one pixel wide, with negative coordinates or near the limits of 32-bit integers",
"The unit test iterates four boxes, none of them wider than high, at negative coordinates or made from swapped corners.",
["src/bbox.rs","src/vector.rs"],
[("iteration","BBox2iIter"),("corners","BBox2::new, diagonal, area"),("conversions","impl_bbox2_from")])

p("C36","The random sampler's values are uniform and independent",
"Every value of the random sampler is uniformly distributed over [0,1), the two values of a pair uniformly over the square, at every position of the request sequence, and values do not depend on earlier ones, on the position within the sample, on the pixel, or on those of a separately created sampler.",
["inputs","histories"],"all samples per pixel, all patterns of single and paired requests and all positions in the sequence",
"No test uses the random sampler; a bias, correlation or restarted sequence is invisible in single values.",
["src/sampler_random.rs","src/sampler.rs"],
[("generator","RandomSampler::new, get_1d, get_2d, start_pixel, start_next_sample")])

p("C37","A picture depends on the scene, not on how the scene is described",
"Describing the same scene in other words leaves the picture unchanged on average: adding shapes and lights in another order, searching it with the tree or the list, starting a triangle's corners elsewhere, listing them backwards with the reversal flag toggled, cutting triangles (emitting ones too) into smaller ones, or replacing a distant light by several weaker ones. The order of shapes and the kind of container do not change even a single pixel when the random numbers are the same.",
["inputs","configurations"],"all scenes of spheres, triangles, area and distant lights and all such changes of description",
"No test renders; this compares pairs of renders of one scene.",
["src/scene.rs","src/light.rs","src/shape_triangle.rs","src/integrator.rs","src/container_kdtree.rs","src/container_simple.rs"],
[("light choice","uniform_sample_one_light"),("emission","AreaLight, Triangle::sample, sample_pdf"),("assembly","Builder")])

p("C38","The picture is the solution of the light transport equation",
"Whatever the scene - open or closed, any mixture of diffuse, chequered, metal, plastic, mirror, clear and frosted glass surfaces, area and distant lights, emitting surfaces that also reflect - the average radiance along a camera ray is the solution of the light transport equation for that scene: emission plus all light scattered towards the viewer after any number of bounces, with the surfaces' physical models, exact visibility and every path counted once.",
["inputs","configurations"],"all scenes, surfaces, lights and views",
"No test renders; this compares whole renders of generated scenes with an independent path tracer.",
["src/integrator.rs","src/reflection.rs","src/light.rs","src/scene.rs","src/shape_triangle.rs","src/shape_sphere.rs"],
[("paths","li, estimate_direct, uniform_sample_one_light"),("scattering","BSDF::f, sample_f, pdf"),("lights","sample_li, pdf_li")])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
