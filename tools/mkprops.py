#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("C01", "Film tiles and pixel iteration partition the sample area",
 "The tiles a film hands out partition its sample area: every integer pixel position of that area lies in exactly one tile, no tile is empty or reaches outside, and none is larger than 16x16. Iterating over any integer box yields each integer point of the half-open box exactly once and then ends, and nothing at all for a box of zero width or height. Neither iteration ever panics.",
 ["inputs", "configurations"], "every film resolution and filter radius, every integer box",
 "test_film_tile_iter and test_bbox2i_iter sample four boxes and one film each; the claim ranges over all boxes and resolutions.",
 ["src/film.rs", "src/bbox.rs"],
 [("FilmTileIter::next, FilmTileIter::new, Film::iter, Film::sample_bbox", "src/film.rs"), ("BBox2iIter::next, BBox2iIter::new, BBox2i::iter, BBox2::new", "src/bbox.rs")])

prop("C02", "A sample is splatted onto exactly the pixels under its filter",
 "Adding a sample to a tile changes exactly those tile pixels whose centre is within the filter radius of the sample on both axes: each gains colour times weight and the same weight, and every other pixel is unchanged. The weight is the tabulated filter value of the table cell containing the absolute offset (clamped to the last cell), and the table holds the filter evaluated at cell centres. A tile covers exactly the in-image pixels within filter radius of a sample taken anywhere in its area, and adding a sample never panics.",
 ["inputs", "configurations"], "every sample position, colour, filter and tile of every film",
 "No test adds a sample to a tile; the footprint depends on every real-valued film position and radius.",
 ["src/film.rs", "src/filter.rs"],
 [("FilmTile::add_sample, FilmTile::pixel_offset, FilmTile::new, Film::get_film_tile, Film::new, Pixel::add_sample", "src/film.rs"), ("GaussianFilter", "src/filter.rs")])

prop("C03", "Merging tiles is additive, framed and order independent",
 "Merging a tile into the film adds each tile pixel's colour and weight to the film pixel at the same image position and leaves every other film pixel untouched, without ever panicking. Consequently the merged film (in exact arithmetic) is the same for every order in which tiles are merged.",
 ["inputs", "schedules", "histories"], "every tile contents, every film contents, every order of merges by worker threads",
 "No test merges tiles; the order of merges is decided by the thread schedule.",
 ["src/film.rs"],
 [("Film::merge_film_tile, Film::pixel_offset, FilmTile::pixel_offset, Pixel::merge", "src/film.rs")])

prop("C04", "The image writer emits a well-formed PPM of the film",
 "Writing the image emits the P3 header with the film's width, height and maximum value 255, followed by exactly width*height lines in row-major order, one per pixel. Each line holds three integers in 0..=255: the rounded, clamped sRGB encoding of accumulated colour divided by accumulated weight. This holds for every accumulated value, including infinities and NaN and pixels that received no sample, and no panic occurs.",
 ["inputs"], "every film contents (any f32 bit pattern in every pixel) and every resolution",
 "No test writes an image; NaN, infinite, huge and zero-weight pixels arise from particular scenes only.",
 ["src/film.rs", "src/common.rs"],
 [("Film::write_image_ppm, gamma_correct", "src/film.rs"), ("clamp", "src/common.rs")])

prop("C05", "Halton sample indices identify the pixel and never collide",
 "For every pixel, the global Halton index used for its k-th sample has low base-2 and base-3 digits equal to the digit reversal of the pixel coordinates (modulo 128, the size of the repeated tile), so that Halton point lies in that pixel, and successive samples of a pixel use indices exactly one stride (the product of the two scales) apart. The index depends only on configuration, pixel and sample number, never on which pixels were visited before or by which thread. Each scale is the smallest power of its base not below the capped image size.",
 ["inputs", "histories", "schedules"], "every sample area, pixel, sample number and visiting history",
 "The only sampler test checks three values of the radical inverse; the index needs a modular-inverse argument over all pixels.",
 ["src/sampler_halton.rs"],
 [("HaltonSampler::new, get_index_for_sample, start_pixel, start_next_sample, multiplicative_inverse, extended_gcd, inverse_radical_inverse, pos_mod", "src/sampler_halton.rs")])

prop("C06", "Sample values are the radical inverses and lie in [0,1)",
 "Dimension d of the Halton sample with index a is the radical inverse of a in the d-th prime base (for the first two dimensions, of a with its pixel digits removed), for each of the 1024 supported dimensions and every 32-bit index, without overflow. Each request for one or two dimensions consumes exactly that many successive dimensions of the current sample, and a new sample restarts at dimension 0. Every value handed out lies in [0,1), and each pixel receives exactly the requested number of samples.",
 ["inputs", "histories"], "every 32-bit index, every dimension, every sequence of sampler calls",
 "One test checks radical_inverse(10, .) at three points; wrap-around and range failures need specific large indices.",
 ["src/sampler_halton.rs", "src/sampler_random.rs", "src/sampler.rs"],
 [("radical_inverse, radical_inverse_prime, sample_dimension, get_1d, get_2d, start_pixel, start_next_sample", "src/sampler_halton.rs"), ("RandomSampler", "src/sampler_random.rs"), ("Sampler::get_camera_sample", "src/sampler.rs")])

prop("C07", "Spawned rays start off the surface on the side they travel to",
 "A ray spawned from a hit starts displaced along the geometric normal, by at least the recorded error bound, to the side its direction points to, with unlimited extent; a shadow segment between two hits runs between their displaced origins and stops short of its end. The next representable float upward (downward) of any non-NaN number is the least number above (greatest below) it, with infinities as fixed points.",
 ["inputs"], "every hit point, normal, error bound and direction; every f32 bit pattern",
 "Untested; the neighbouring-float routine manipulates bit patterns and sign, zero and infinity are its corner cases.",
 ["src/interaction.rs", "src/common.rs"],
 [("Interaction::offset_ray_origin, spawn_ray, spawn_ray_to", "src/interaction.rs"), ("next_float_up, next_float_down, gamma", "src/common.rs")])

prop("C08", "Every transform carries its true inverse",
 "Up to floating-point rounding, for every transform built by the constructors (translate, scale, rotate, look-at, perspective, arbitrary invertible matrix), by composition or by inversion, applying it and then its inverse is the identity on points, vectors, normals and rays, and composition applies the right factor first. Translation, scaling and rotation (in degrees, right-handed) act on points and vectors as their names say; look-at maps the camera frame to the given position, viewing direction and up direction; matrix inversion and transposition are exact.",
 ["inputs", "histories"], "all parameters and all compositions of transforms",
 "Tests check one inverse, one product and one look-at; a wrong cofactor sign shows only for matrices with particular nonzero entries.",
 ["src/matrix.rs", "src/transform.rs"],
 [("Matrix::inverse, Matrix::transpose, Mul, Div", "src/matrix.rs"), ("Transform constructors, inverse, Mul, apply, inverse_apply, Transformable impls for Vector3f, Point3f, Normal3f, Ray", "src/transform.rs")])

prop("C09", "Transformed normals, boxes, rays and hits stay geometrically valid",
 "Up to rounding, a transformed normal stays perpendicular to every transformed tangent of the surface; a transformed bounding box contains the image of every point of the box under every affine transform; a transformed ray passes through the images of the original ray's points at the same parameters; a transformed hit keeps its shape and surface coordinates and transforms each geometric quantity by its own rule.",
 ["inputs"], "all invertible affine transforms, boxes, rays, hits",
 "No test transforms a normal, a box, a ray or a hit; axis-aligned examples hide errors that rotations reveal.",
 ["src/transform.rs", "src/bbox.rs"],
 [("Transformable impls for Normal3f, BBox3f, Ray, Interaction", "src/transform.rs"), ("BBox3f::new, union_point", "src/bbox.rs")])

prop("C10", "Camera rays project back onto the film point they were made for",
 "Up to rounding, the primary ray for a film position starts at the camera position, has unit direction before the camera-to-world transform and unlimited extent, and every point on it projects through the camera's perspective transform to the screen-window point corresponding linearly to that film position (film x rightwards from the window's minimum x, film y downwards from its maximum y).",
 ["inputs", "configurations"], "all screen windows, resolutions, perspective parameters, camera poses and film positions",
 "No test constructs a camera.",
 ["src/camera.rs", "src/transform.rs"],
 [("PerspectiveCamera::new, generate_ray", "src/camera.rs"), ("Transform::perspective", "src/transform.rs")])

prop("C11", "Bounding boxes are conservative",
 "A box built from points or by union contains everything it was built from and nothing smaller does; containment, overlap, diagonal, surface area, largest axis and bounding sphere agree with their geometric definitions. Up to rounding, intersecting a ray with a box reports every ray parameter in [0, t_max] whose point lies in the box inside the returned interval, returns nothing only when there is none, and handles rays parallel to (or lying in) box faces, zero direction components and unlimited rays; rounding never makes an unlimited ray miss a box that holds one of its points.",
 ["inputs"], "all boxes, points and rays, including zero direction components and infinite t_max",
 "BBox3f has no test; zero direction components produce NaN and infinity inside the slab test.",
 ["src/bbox.rs", "src/vector.rs"],
 [("BBox3f::new, union, union_point, bbox_of_shapes, point_inside, overlaps, diagonal, surface_area, max_extent, bounding_sphere, intersect", "src/bbox.rs"), ("Point3f::min, max", "src/vector.rs")])

prop("C12", "Sphere intersection finds the nearest hit on the sphere",
 "Up to rounding, a ray hits a sphere at parameter t iff t is the smallest parameter in (0, t_max) at which the ray is on the sphere; the reported point is that point, its normal is the unit outward normal, and the tangent frame is finite, nonzero and perpendicular to the normal, including at the poles; the recorded error bound is small but covers the rounding of the coordinates, and the surface coordinates are azimuth and polar angle. The boolean query agrees with the detailed one, the sphere's bounding box contains it and its area is 4*pi*r^2; quadratic equations yield both real roots in order, or none.",
 ["inputs"], "all spheres of positive radius and all rays of nonzero direction",
 "test_intersect tries five rays; tangent, inside, pole and t_max-limited cases are a continuum.",
 ["src/shape_sphere.rs", "src/common.rs"],
 [("Sphere::has_intersection, compute_interaction, compute_partial_derivative, intersect, intersect_p, bbox, area", "src/shape_sphere.rs"), ("quadratic", "src/common.rs")])

prop("C13", "Triangle intersection agrees with geometry and with itself",
 "Up to rounding, a reported triangle hit lies on the ray at the reported parameter, which is in (0, t_max], and inside the triangle; rays missing the triangle's interior report nothing; the boolean query gives the same answer as the detailed one for every input. Normals are unit, perpendicular to the triangle, on the side of the shading normal and flipped by reversed orientation; interpolated shading normals are finite even when vertex normals cancel; surface coordinates interpolate the corners' (0, 0), (1, 0), (1, 1) and the tangents of a flat triangle follow them; the recorded error bound is small but covers the rounding of the coordinates; sampled points lie in the triangle with the front-face normal; area and bounding box are those of the triangle.",
 ["inputs"], "all non-degenerate triangles (both orientations, with and without vertex normals), all rays and sample values",
 "Triangle has no test at all; the two copies of the intersection code may drift apart.",
 ["src/shape_triangle.rs"],
 [("Triangle::intersect, intersect_p, sample, bbox, area", "src/shape_triangle.rs")])

prop("C14", "Acceleration structures return what an exhaustive search would",
 "For every set of shapes, every depth limit and every ray, the k-d tree and the linear container report a hit iff some shape is hit within the ray's extent, and the hit they report is the closest one, carrying the shape that was hit; the boolean query agrees. Every shape handed to the tree remains reachable in every leaf region its bounding box overlaps, and tree construction and traversal terminate without panicking, also for an empty set of shapes.",
 ["inputs", "configurations"], "all finite sets of shapes, depth limits and rays (exact arithmetic)",
 "Neither container has a test; splitting planes through shape boundaries, ties and nested leaves need particular scenes.",
 ["src/container_kdtree.rs", "src/container_simple.rs", "src/shape.rs"],
 [("KdTree::new, build, intersect, intersect_p, Node::new_leaf", "src/container_kdtree.rs"), ("Simple::new, intersect, intersect_p", "src/container_simple.rs"), ("intersect", "src/shape.rs")])

prop("C15", "The scene contains exactly what was added",
 "A constructed scene has as its lights exactly the lights and area lights that were added, and hands the container exactly the shapes and area lights that were added, each once; an area light is the same object in both roles. Before rendering, every light is preprocessed exactly once with a box enclosing every shape and area light. Building a scene never panics, also with no shapes or no lights.",
 ["histories", "inputs"], "every sequence of add calls followed by construct",
 "Builder has no test.",
 ["src/scene.rs", "src/bbox.rs"],
 [("Builder::add_light, add_shape, add_area_light, construct, Scene::new", "src/scene.rs")])

prop("C16", "BSDF sampling, density and value agree",
 "For any list of scattering lobes and any shading frame, the surface's sampled direction comes with exactly the value and density that evaluating the surface for that direction gives (for specular lobes: the lobe's own value and density divided by the number of lobes), and with the flags of the chosen lobe. Reflective lobes contribute only when both directions are on the same geometric side and transmissive ones only when they are on opposite sides; the density is the average over lobes; any sample in [0,1) selects a valid lobe with equal shares. World-to-local and local-to-world conversions are inverse to each other for orthonormal frames.",
 ["inputs", "configurations"], "all lobe lists, frames, directions and sample values in [0,1)",
 "One test checks one frame; selection at the upper end of the sample range and mixed lobes are untested.",
 ["src/reflection.rs"],
 [("BSDF::new, add, f, sample_f, pdf, world_to_local, local_to_world, BxDF::has_flag", "src/reflection.rs")])

prop("C17", "Lobes report the density they actually sample from",
 "For each scattering lobe, the density reported for a sampled direction equals the density of the sampling procedure in solid angle (cosine-weighted for diffuse; the GGX half-vector density with its cosine and Jacobian for glossy reflection and transmission), sampled and separately queried densities and values agree, and sampled directions lie in the hemisphere the lobe claims. Glossy values follow the Torrance-Sparrow formula with that distribution and Smith's shadowing. Densities are never negative, diffuse and glossy reflection values are reciprocal, and a direction outside the lobe's hemisphere has density zero.",
 ["inputs"], "all roughnesses, index ratios, unit directions and sample values",
 "No lobe has a test; a density wrong by a cosine only biases the image.",
 ["src/bxdf_lambertian_reflection.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/bxdf_specular_reflection.rs", "src/bxdf_specular_transmission.rs", "src/microfacet.rs", "src/sampling.rs"],
 [("f, sample_f, pdf of each BxDF", "src/bxdf_*.rs"), ("MicrofacetDistribution d, g, g1, lambda, pdf, sample_wh", "src/microfacet.rs"), ("cosine_sample_hemisphere, concentric_sample_disk", "src/sampling.rs")])

prop("C18", "Reflection, refraction and Fresnel obey optics",
 "Up to rounding, mirror reflection preserves length and the angle to the normal and stays in the plane of incidence; refraction obeys Snell's law for the given index ratio, returns a unit direction on the other side, and reports total internal reflection exactly when the refracted sine would reach one. Dielectric and conductor reflectances lie in [0,1], dielectric reflectance is 1 under total internal reflection, is the same from both sides of the interface along a refracted path, and equals the Fresnel equations.",
 ["inputs"], "all unit directions, cosines, and positive indices and absorption coefficients",
 "None of these functions has a test.",
 ["src/reflection.rs", "src/fresnel.rs"],
 [("reflect, refract, trigonometric helpers", "src/reflection.rs"), ("fr_dielectric, fr_conductor, Fresnel impls", "src/fresnel.rs")])

prop("C19", "Lights illuminate from where they say, with the density they say",
 "A distant light delivers its radiance along its normalised direction with density one and a shadow segment that leaves the scene's bounding sphere; it is a delta light of zero density for any chosen direction. An area light delivers its radiance only on its front side, from a point on its shape towards the shaded point, and its reported density is the solid-angle density of that sampled point as seen from the shaded point. Visibility is exactly the absence of a hit on the shadow segment.",
 ["inputs", "configurations"], "all lights, scenes, shaded points and sample values",
 "Lights have no test.",
 ["src/light.rs", "src/shape.rs", "src/bbox.rs"],
 [("DistantLight, AreaLight: sample_li, pdf_li, pre_process, l; VisibilityTester::unoccluded", "src/light.rs"), ("Shape::pdf, sample_ref", "src/shape.rs")])

prop("C20", "The path estimator weights every contribution correctly",
 "Direct lighting adds light-sampled and surface-sampled contributions weighted by the power heuristic, whose two weights sum to one (delta lights and specular lobes get full weight), counts only unoccluded light, and a uniformly chosen light is compensated by the number of lights. Along a path the throughput is multiplied by value times cosine over density, emission is added only at the first hit and after specular bounces, roulette divides by its survival probability, and every path ends within the bounce limit. A sample whose radiance is NaN, infinite or negative never reaches the film.",
 ["inputs", "histories"], "all lights, surfaces, sample values and radiance values",
 "The integrator has no test.",
 ["src/integrator.rs", "src/sampling.rs"],
 [("estimate_direct, uniform_sample_one_light, li, IntegratorLocal::render", "src/integrator.rs"), ("power_heuristic", "src/sampling.rs")])

prop("C21", "Textures evaluate to the mapped value or checker parity",
 "A constant texture returns its value everywhere; planar mapping scales and offsets the surface coordinates per axis and spatial mapping is the given world-to-texture transform of the hit point. A checkerboard returns its first value exactly on cells whose integer coordinates have an even sum and the second on all others, also for negative coordinates.",
 ["inputs"], "all hits, mappings and finite coordinates of magnitude below 2^60",
 "Textures have no test; negative cells are where remainders go wrong.",
 ["src/texture.rs"],
 [("Texture impls, TextureMapping impls", "src/texture.rs")])

prop("C22", "Mesh construction keeps every face",
 "Building a triangle mesh yields exactly one triangle per index triple, in order, whose vertices are the indexed vertices in the given winding; vertex normals are attached from the corresponding normal-index triple exactly when a normal index is given for every face. Construction panics only for out-of-range indices.",
 ["inputs"], "all vertex and index arrays",
 "Mesh construction has no test.",
 ["src/shape_triangle.rs"],
 [("Triangle::new_triangle_mesh, Triangle::new", "src/shape_triangle.rs")])

prop("C23", "Vector, point, normal and colour arithmetic is componentwise",
 "Each arithmetic operator on vectors, points, normals, colours and two-dimensional vectors acts componentwise on every component, compound assignment equals the plain operator, indexing by number or axis addresses the named component, and conversions keep components. Length, normalisation, dot and cross product, absolute value, minimum, maximum, permutation, dominant axis, orthonormal basis and luminance agree with their mathematical definitions (up to rounding).",
 ["inputs"], "all component values",
 "Only indirectly exercised by tests with mostly zero and equal components.",
 ["src/vector.rs", "src/vector_macro.rs", "src/spectrum.rs", "src/axis.rs", "src/common.rs"],
 [("impl_vector3f_*, impl_vector2_*", "src/vector_macro.rs"), ("Vector3f, Normal3f, Point3f, Vector2, Point2", "src/vector.rs"), ("Spectrum", "src/spectrum.rs"), ("Axis", "src/axis.rs"), ("clamp, lerp", "src/common.rs")])

prop("C24", "Materials build the lobes their parameters call for",
 "For every surface point each material yields exactly the lobes its description calls for: specular ones when roughness is zero and microfacet ones with the evaluated roughness otherwise, with the evaluated colours clamped to be non-negative, the given refraction indices in the right order, and no lobe for a black colour (except metal, which always has its one lobe). No other lobe is added.",
 ["inputs", "configurations"], "all texture values and hits",
 "Materials have no test.",
 ["src/material_glass.rs", "src/material_metal.rs", "src/material_mirror.rs", "src/material_plastic.rs", "src/material_lambertian_reflection.rs"],
 [("Material::compute_scattering impls", "src/material_*.rs")])

prop("C25", "Parallel rendering renders every tile once and writes the image",
 "For any number of worker threads of at least one and any schedule, every tile the film hands out is rendered and merged exactly once, every pixel of a tile is started once and sampled until the sampler says it is done, and the image is written only after all workers have finished. The output file then holds exactly the written image, whatever it contained before.",
 ["schedules", "configurations"], "every thread count >= 1, every interleaving, every previous output file",
 "No test renders; interleavings and stale output files are not sampled.",
 ["src/integrator.rs"],
 [("Integrator::render, IntegratorLocal::render", "src/integrator.rs")])

prop("C26", "Rendered images converge to the light transport integral",
 "As the number of samples per pixel grows, the expected pixel value converges to the light transport integral for the scene.",
 ["inputs", "configurations"], "all scenes, sample counts tending to infinity",
 "A statistical limit; tests render nothing.",
 ["src/integrator.rs", "src/sampler_random.rs"],
 [("the whole estimator", "src/integrator.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
