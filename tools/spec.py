"""one entry per property"""
P = []
def prop(**k): P.append(k)

prop(id="C01", title="Flips, quarter turns, crop, replace and overlay move exactly the right pixels",
 statement="Every flip, rotation by a quarter or half turn, crop, replace and overlay yields an image of the documented size in which each pixel is exactly the source pixel its geometric definition names (for overlay: the blend of the two), for any image size including empty ones. The in-place, copying and parallel variants agree, and a rectangle or position outside the image is refused by a panic rather than by a wrong result.",
 q="all image contents and all sizes up to 4x4, all rectangles and offsets that can be formed on them, inside and outside",
 why="the tests show one or two fixed 3x2 or 6x6 images per function; replace and overlay have a single documentation example each and no test at the last row or column",
 files=["src/compose.rs", "src/geometric_transformations.rs"],
 mech=[("flip/rotate loops with half ranges", "src/compose.rs flip_*_mut; src/geometric_transformations.rs rotate90/180/270"), ("clipping of the pasted region", "src/compose.rs replace_mut, overlay_mut"), ("range assertions", "src/compose.rs crop")],
 bounds=["grey images 0..4 x 0..4 with all 8-bit contents", "RGB images up to 3x3", "crop/replace: images up to 3x3, rectangles/offsets 0..3", "overlay: RGBA up to 2x2, arbitrary colours with opaque or transparent top, plus fixed translucent pixels", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260 with fixed pseudo-random contents and up to eight arbitrary pixels"],
 outside=["other contents of larger images", "translucent blends of arbitrary colours (image crate's float blend)"])

prop(id="C02", title="Translation and warping sample exactly the pixel the map's inverse names",
 statement="Translating, rotating and warping an image assigns to each output pixel the value of the input at the pre-image of that pixel under the given map: the nearest pixel, the bilinear mean of the four neighbours, or the bicubic interpolant, and the default colour wherever the pre-image lies outside the image. The output keeps the requested size, translation replicates the border, constants are preserved by interpolation, and no coordinate (huge, negative, NaN, infinite) or image size (empty, one pixel) makes a warp panic, read out of bounds or return anything but the default there.",
 q="all pixel contents and all f32 sampling coordinates for images of a few pixels; all translation offsets; all rotations by right angles and integer maps; every order of parallel work",
 why="tests warp one 3x3 or 20x20 image by a fixed affine map; the coordinate space of f32 pairs, including NaN and out-of-range values, is not enumerable",
 files=["src/geometric_transformations.rs"],
 mech=[("inverse mapping loop", "warp_into, warp_inner, warp_with"), ("interpolators with border tests", "interpolate_nearest, interpolate_bilinear, interpolate_bicubic"), ("border replication", "translate")],
 bounds=["translate: images up to 3x3, every i32 offset pair", "nearest: 2x2 and 3x1, every pair of f32 coordinates", "bilinear/bicubic: position classes over all f32 coordinates; values on a quarter-pixel grid", "warps: images up to 3x3, all right-angle rotations, integer maps, projective horizons", "parallel rows in every order of two halves", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, translations, warps and rotations with fixed pseudo-random contents and an arbitrary pixel"],
 outside=["numeric error of bilinear/bicubic weights off the quarter grid", "rotation by other angles (libm)"])
prop(id="C03", title="Projections form the algebra of planar maps they claim to be",
 statement="A Projection built by translate, rotate, scale, from_matrix or from_control_points maps points by homogeneous division; composing with * applies the right factor first and and_then the left one first; inverting gives the two-sided inverse and inverting twice returns the same map; singular matrices are refused and invertible ones accepted; from_control_points maps each given point onto its target.",
 q="all translation and scale parameters on a dyadic grid (all f32 for translation of integers), families of affine and projective matrices, eight control point configurations",
 why="tests invert or compose a couple of matrices; projective compositions, zero bottom-right coefficients and classification shortcuts (translation/affine/projection) interact in ways single examples do not show",
 files=["src/geometric_transformations.rs"],
 mech=[("class of a projection selects the mapping routine", "TransformationClass, map_translation/map_affine/map_projective"), ("cached inverse", "Projection::invert, and_then"), ("matrix normalisation", "from_matrix, normalize")],
 bounds=["translation/scale coordinates: integers and quarters up to 12 bits", "matrices: affine with symbolic integer entries, projective with symbolic dyadic entries", "control points: fixed quadrilaterals"],
 outside=["rounding error of general float matrices", "SVD accuracy for arbitrary control points"])
prop(id="C04", title="Linear filters are exact correlation with replicated borders",
 statement="filter, filter_clamped, horizontal_filter, vertical_filter, separable_filter, laplacian_filter and sharpen3x3 give for every pixel the correlation of the kernel with the neighbourhood centred on it, taking the nearest edge pixel for positions outside the image, converted to the output type with saturation, independently per channel. Image size is preserved for any size including empty, serial and parallel versions agree under any task order, and the predefined kernels hold the documented coefficients.",
 q="all pixel contents, symbolic kernel coefficients for fixed kernel shapes, all image sizes up to 4x4, every order of parallel work",
 why="tests use one image per filter and rarely one smaller than the kernel; border handling differs by size and by code path (fast centre, edges)",
 files=["src/filter/mod.rs", "src/kernel.rs"],
 mech=[("correlation loop with clamped coordinates", "filter, filter_pixel"), ("separate edge and interior loops of 1-D filters", "horizontal_filter, vertical_filter"), ("saturating conversion", "src/definitions.rs Clamp")],
 bounds=["images up to 4x4", "kernels up to 3x3 with symbolic integer coefficients, plus 5x1 and 1x5", "two parallel halves in both orders", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, kernels up to 9 long, fixed pseudo-random contents and an arbitrary pixel"], outside=["rounding of float kernels beyond exactly representable sums"])
prop(id="C05", title="Smoothing filters compute the statistic of the window they claim",
 statement="box_filter gives the mean of the (2rx+1)x(2ry+1) window with replicated borders (rounded down by less than two levels), median_filter gives the median of that window for any radii and contents, gaussian_blur has unit weight and the impulse response of its sigma, bilateral_filter stays in the range of its input and reduces to the window mean for constant colour weights, and sharpen_gaussian leaves constants alone. Sizes are preserved; empty and tiny images and radii larger than the image are handled; a non-positive sigma is refused.",
 q="all pixel contents over small alphabets (all 8-bit for the box filter) on all image sizes up to 3x3 or 4x4 with radii 0..3",
 why="the median uses an incremental histogram whose errors need particular histories of entering and leaving values; box filter errors appear only when the radius exceeds the image",
 files=["src/filter/mod.rs", "src/filter/median.rs", "src/filter/box_filter.rs"],
 mech=[("incremental window histogram", "median_filter: initialise/slide"), ("running sums", "box_filter via integral_image::row_running_sum/column_running_sum"), ("normalised weights", "gaussian kernel, bilateral")],
 bounds=["box: up to 4x1, 1x4, 3x3 with all 8-bit contents, radii 0..3", "median: 2-bit and binary pixels up to 4x3, radii 0..2", "gaussian/bilateral: one arbitrary pixel among fixed ones", "large: box 260x2 and the like with radii up to 40; median 37x5, 12x11 and the like with radii up to 9; gaussian impulse up to 130 long with sigma up to 9; gaussian, bilateral and sharpening values against an f64 reference on images up to 7x3 with one arbitrary pixel"], outside=["float rounding for several arbitrary pixels at once", "other contents of larger images"])
prop(id="C06", title="Image gradients are the documented kernels' responses and their magnitude",
 statement="horizontal_/vertical_ sobel, scharr and prewitt give the signed correlation of the image with their kernel (replicated borders) and sobel_gradients, prewitt_gradients, gradients and gradients_grayscale give the integer part of the Euclidean norm of the two responses, per channel, with the caller's function applied to each pixel.",
 q="all contents of all images up to 3x3 (grey) and 2x2 (RGB)",
 why="tests use one 3x3 image; swapped kernels or channels cancel on symmetric samples",
 files=["src/gradients.rs", "src/kernel.rs"], mech=[("two filtered images combined pixelwise", "gradients::gradients, gradient_magnitude"), ("kernel constants", "src/kernel.rs")],
 bounds=["grey up to 3x3, RGB 2x2, all 8-bit contents", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260 with one arbitrary pixel"])
prop(id="C07", title="Integral images, region sums and running sums agree with direct summation",
 statement="integral_image and integral_squared_image contain at (x,y) the sum over all pixels strictly above and left; sum_image_pixels and variance over any inclusive rectangle equal the direct sum and variance; row_running_sum and column_running_sum give prefix sums over the edge-padded row or column; unusable requests are refused.",
 q="all contents and all rectangles of images up to 4x4, all channel counts, all paddings up to 3",
 why="tests check one 2x3 image; rectangle corner combinations touch four different table entries",
 files=["src/integral_image.rs"], mech=[("unsafe single-pass accumulation", "integral_image_impl"), ("four-corner difference", "sum_image_pixels, variance"), ("unsafe padded prefix sums", "row_running_sum, column_running_sum")],
 bounds=["grey up to 4x4 all contents", "RGB 3x2, RGBA 2x2", "variance with one arbitrary pixel", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, selected rectangles, and sums of bright images"])
prop(id="C08", title="Threshold operations classify every pixel as defined",
 statement="threshold applies its rule (Binary: 255 above t else 0; BinaryInverted the opposite; Truncate: t above t; ToZero: 0 above t, else the pixel; ToZeroInverted: the pixel above t, else 0) to every pixel for every t; adaptive_threshold is white exactly where the pixel is at least the floor of the clipped block mean minus delta for any radius and delta; otsu_level maximises the between-class variance and kapur_level the total entropy of the two classes, and both return 0 for constant images and separate two-valued ones.",
 q="all images up to 3x3 and all thresholds; adaptive: all contents, radii 1..4 and extreme values, deltas -300..300 and extremes; levels: up to four pixels, one arbitrary within a window",
 why="level selection is an argmax over 256 candidates; a few hand-made histograms cannot establish optimality; tests use delta 0 only",
 files=["src/contrast.rs"], mech=[("comparison per pixel", "threshold_mut"), ("clipped window over an integral image", "adaptive_threshold"), ("argmax loops", "otsu_level, kapur_level")],
 bounds=["threshold: up to 3x2", "adaptive: up to 4x4, radius 1..4 and 2^31-1, 2^31, 2^32-1", "otsu/kapur: 1..4 pixels, one symbolic within windows 0..7, 96..103, 248..255", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260 with fixed contents and arbitrary pixels"], outside=["large histograms (total weights above 2^24)"])
prop(id="C09", title="Contrast stretching, equalisation and histogram matching follow their maps",
 statement="stretch_contrast maps the input interval linearly (rounding down) onto the output interval, saturates outside it, keeps alpha and refuses an empty input interval or inverted output interval; equalize_histogram sends each pixel to its cumulative fraction of 255; match_histogram picks for each level a target level whose cumulative fraction is closest, so matching an image to itself changes nothing. Order of grey levels is never inverted and in-place variants agree with copying ones.",
 q="any one of the five stretch parameters arbitrary around six presets; histograms of up to four pixels with one arbitrary pixel; five target histograms; every task order",
 why="tests cover a handful of parameter sets; overflow, rounding and ties depend on the combination",
 files=["src/contrast.rs", "src/map.rs"], mech=[("u16 linear map", "stretch_contrast_mut"), ("cumulative fractions", "equalize_histogram_mut"), ("two-pointer search for the closest fraction", "histogram_lut")],
 bounds=["stretch: each parameter in turn takes all 256 values", "equalize/match: 1..4 pixels, one symbolic within three windows", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, fixed contents, one arbitrary pixel"], outside=["other contents of large images"])
prop(id="C10", title="Histograms, extrema, percentiles and error measures are exact",
 statement="histogram and cumulative_histogram count, per channel, the pixels equal to and up to each level; min_max returns bounds that hold for all pixels and are attained; percentile(p) is the least level with at least p percent of the pixels at or below it and refuses p > 100; root_mean_squared_error and peak_signal_to_noise_ratio follow their definitions, are symmetric where they should be, give infinity for identical images and refuse images of different sizes.",
 q="all contents of images up to 3x2, percentages around every boundary",
 why="tests use one image and a few percentages",
 files=["src/stats.rs"], mech=[("per-channel counting", "histogram, cumulative_histogram"), ("first level reaching the fraction", "percentile"), ("mean of squares", "mean_squared_error")],
 bounds=["histogram: up to 4 pixels within windows of 8 levels", "min_max: up to 3x2 all contents", "percentile: up to 4 pixels, 13 percentages", "errors: one arbitrary pixel, up to 2x2", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, fixed contents, one or more arbitrary pixels"])
prop(id="C11", title="Distance transforms give the exact distance to the nearest foreground",
 statement="distance_transform (and its in-place variant) assigns to every pixel its L1, L-infinity or (rounded up) L2 distance to the nearest non-zero pixel, saturating at 255 where it is further or there is none; euclidean_squared_distance_transform gives the exact squared Euclidean distance, infinite where there is no foreground. Empty images are accepted and sizes preserved.",
 q="all foreground sets of images up to 3x3 (and 7x1, 1x7, 2x5, 5x2); every position of a foreground pixel around the saturation distance",
 why="tests use four hand-made images; two-pass propagation and lower-envelope intersections fail only for particular arrangements of several pixels",
 files=["src/distance_transform.rs"], mech=[("forward and backward passes", "distance_transform_impl"), ("lower envelope of parabolas", "distance_transform_1d_mut"), ("saturation at 255", "check, distance_transform_mut")],
 bounds=["all binary images up to 3x3, 7x1, 1x7 (thorough 4x4, 5x4, 6x4)", "saturation: lines of up to 300 pixels with one foreground pixel", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, scattered fixed foreground with arbitrary pixels"])
prop(id="C12", title="Binary dilation, erosion, opening and closing follow the norm's distance",
 statement="dilate makes white exactly the pixels within distance k of the foreground in the chosen norm and erode keeps exactly the foreground pixels further than k from the background; open is erosion then dilation and close dilation then erosion; in-place variants agree; an image without foreground stays black under dilation and one without background stays white under erosion.",
 q="all binary images up to 3x3 with k 0..3 in every norm; every k up to 255 on long lines",
 why="the pixel outputs combine thresholds of a saturating distance; examples use one or two shapes and k of 1",
 files=["src/morphology.rs", "src/distance_transform.rs"], mech=[("threshold of the distance transform", "dilate_mut"), ("distance from background", "erode_mut"), ("composition", "open_mut, close_mut")],
 bounds=["all binary images up to 3x3, k 0..3 (thorough 4x4)", "reach: lines of up to 300 pixels, all k", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, scattered fixed foreground with arbitrary pixels"], outside=["known finding: k = 255 reaches beyond 255"])
prop(id="C13", title="Grayscale morphology takes extremes under the mask; masks have their shape",
 statement="grayscale_dilate/erode give for each pixel the maximum/minimum of the image over the mask translated there (positions outside the image ignored, neutral value where nothing is covered), open and close compose them, and both are dual under negation. Mask::square, diamond and disk contain exactly the offsets within the radius in their norm, from_image contains exactly the non-zero pixels relative to the given centre, and images beyond 511 pixels are refused.",
 q="all image contents over images up to 3x3 for all masks on up to 2x2/3x2 supports with every centre; all centres and radii for shapes",
 why="tests use one image and a few masks; off-centre masks partially or fully outside the image are not covered",
 files=["src/morphology.rs"], mech=[("mask of horizontal lines", "Mask::from_image, disk, square, diamond"), ("clipped line by line extremes", "mask_reduce, grayscale_dilate/erode")],
 bounds=["images up to 3x3, 8-bit contents", "masks up to 3x2 with every subset and centre", "shapes: radii 0..6 (thorough more)", "large: images up to 37x23 and 70 long with large masks, one arbitrary pixel"])
prop(id="C14", title="Component labelling and the union-find forest identify exactly the classes",
 statement="connected_components gives background pixels label 0 and two other pixels the same label exactly when a path of equal-coloured 4- or 8-neighbours joins them; labels are 1..n for n components. DisjointSetForest::root identifies exactly the classes generated by the unions made so far, num_trees counts them, and queries do not change them.",
 q="all binary images up to 4x3, 3x4 and all small images of several colours; all sequences of up to 4 unions on up to 4 elements with queries between",
 why="label merging depends on the order in which branches meet; a union-find's state is a history",
 files=["src/region_labelling.rs", "src/union_find.rs"], mech=[("two passes with equivalences", "connected_components"), ("union by size with path compression", "DisjointSetForest")],
 bounds=["binary images 4x3/3x4 (thorough 4x4, 7x3)", "comb shapes with arbitrary bars", "forest: 4 elements x 3 unions, 3 x 3 with queries (thorough 5 x 3, 4 x 4)", "large: noise, combs and spirals up to 130 long; forests of up to 100 elements"])
prop(id="C15", title="Non-maximum suppression keeps exactly the maxima of each neighbourhood",
 statement="suppress_non_maximum keeps a pixel exactly when it is the maximum of the square of the given radius around it (the first in scan order among equals) and clears all others; local_maxima keeps exactly the items with the greatest score in the square of the given radius around them, for any radius, order of coordinates and number of items.",
 q="all contents of small images, all placements and scores of up to three items, any radius including extremes",
 why="the block decomposition makes errors appear only where maxima straddle particular blocks",
 files=["src/suppress.rs"], mech=[("block-wise search", "suppress_non_maximum"), ("row bands of sorted items", "local_maxima")],
 bounds=["images up to 3x2 / 4x1 with small alphabets, sparse 5x5", "up to 3 items on a small grid (thorough 4), radii 0..3 and 2^31, 2^32-1", "large: images up to 37x9 and 200 long with radii up to 40; 100 items"])
prop(id="C16", title="Contour tracing reports every border, its kind and its parent",
 statement="find_contours gives exactly one contour for each 8-connected foreground region (outer) and for each 4-connected hole (hole), consisting of exactly the border pixels in an order where neighbours follow one another, each with the parent border directly surrounding it; touching the image's edge changes nothing, thresholds select the foreground, and the coordinate type does not matter.",
 q="all binary images up to 3x4/4x3 and templates up to 9x9 with free pixels",
 why="Suzuki-Abe border following depends on the whole history of marks; tests cover six images",
 files=["src/contours.rs"], mech=[("border following with marks", "find_contours_with_threshold"), ("parent table", "find_contours_with_threshold")],
 bounds=["all binary images up to 3x4 and 4x3 (thorough 4x4, 5x3)", "templates with 6-8 free pixels: nested rings, several holes, edges", "large: noise, rings, combs and spirals of 24x13, 60x4, 4x60, 130x2"])
prop(id="C17", title="Canny marks the thinned gradient maxima joined to strong ones",
 statement="Every pixel canny reports is 255 and is a local maximum of the gradient along its direction of at least the low threshold, linked by reported 8-neighbours to one of at least the high threshold; every local maximum of at least the high threshold is reported and so is every weak one next to a reported pixel. Flat, empty and tiny images give no edges, thresholds may take any value, and a high threshold below the low one is refused.",
 q="steps, ramps, lines and corners with one arbitrary 8-bit pixel and several threshold pairs",
 why="tests compare with one stored picture",
 files=["src/edges.rs"], mech=[("direction-quantised suppression", "non_maximum_suppression"), ("hysteresis by flood fill", "hysteresis")],
 bounds=["10 scenes of 7x6/7x7 with one arbitrary pixel, 5 threshold pairs", "large: scenes of 19x12, 40x5, 5x40"], outside=["known finding: weak maxima above (N, NE) an edge pixel are not followed", "rounding at exact direction boundaries"])
prop(id="C18", title="FAST corners are exactly the pixels with a long uniform arc, scored exactly",
 statement="corners_fast9/12 report exactly the pixels at least three from the border for which 9/12 contiguous pixels of the 16-pixel circle are all brighter than the centre plus threshold or all darker than it minus threshold; the score is the greatest threshold for which that holds. oriented_fast returns at most the requested number of such corners, those with the highest scores, with the orientation of the intensity centroid of the clipped patch; small and empty images are accepted.",
 q="circles with arbitrary classification of every pixel; arbitrary brightness; all positions",
 why="an early-exit decision tree over 16 pixels has many thousands of branches; tests use one example per kind",
 files=["src/corners.rs"], mech=[("early rejection by compass points", "is_corner_fast9/12, has_bright_span/has_dark_span"), ("binary search for the score", "fast_corner_score"), ("centroid", "intensity_centroid, oriented_fast")],
 bounds=["7x7 circles with every combination of brighter/darker/similar pixels", "score: one symbolic level on chosen circles", "oriented: images up to 9x9", "large: scenes of 37x23, 70x8, 8x70"])
prop(id="C19", title="Hulls, areas, lengths, bounding rectangles and simplification are geometric",
 statement="convex_hull returns the vertices of the least convex polygon containing all points (each once, strictly convex, starting at the topmost-leftmost) for any coordinates, duplicates and collinear input; oriented_contour_area is the shoelace formula and contour_area its size; arc_length sums the segment lengths (closing if asked); min_area_rect returns the outward-rounded corners of a rectangle of least area over all hull edges; approximate_polygon_dp returns points of the curve in order, with both ends, such that every dropped point is within epsilon of its chord, and refuses a non-positive epsilon.",
 q="all positions of one point among grids of others, degenerate and duplicate points, extreme coordinates; one arbitrary point in areas, lengths and rectangles",
 why="collinear and duplicate points, wrap-around edges and overflow are combinations tests do not enumerate",
 files=["src/geometry.rs", "src/point.rs"], mech=[("Graham scan with angular sort", "convex_hull, orientation"), ("rotating calipers", "min_area_rect, rotating_calipers"), ("recursive farthest point", "approximate_polygon_dp")],
 bounds=["hull: up to 5 points on 4x4 grids, 25 points with duplicates, coordinates at the limits of i32", "area: 5 points, one with arbitrary 16-bit coordinates", "rect/length/simplify: one arbitrary point among fixed ones", "large: clouds of 40-120 points, curves of 60 points, one arbitrary"], outside=["rounding of nearly degenerate rectangles"])
prop(id="C20", title="Rectangles and crosses cover exactly their pixels, clipped to the image",
 statement="Rect's accessors, contains and intersect describe the set of integer points left..=right x top..=bottom for any position and size (also beyond i32); draw_filled_rect colours exactly the image pixels in the rectangle, draw_hollow_rect exactly those of its four edges and draw_cross exactly the five pixels of the plus; everything outside the image is ignored, nothing else changes, and empty images and extreme positions are accepted. In-place and copying variants agree.",
 q="all i32/u32 positions and sizes for Rect; all positions and sizes around small images, extreme ones, arbitrary contents and colours",
 why="clipping depends on the relative position of rectangle and image; overflow needs extreme coordinates; tests show one rectangle per case",
 files=["src/rect.rs", "src/drawing/rect.rs", "src/drawing/cross.rs"], mech=[("right/bottom and intersection arithmetic", "Rect::right, bottom, intersect"), ("clipping by intersection with the image", "draw_filled_rect_mut"), ("bounds test per pixel", "draw_if_in_bounds")],
 bounds=["Rect: all i32 corners and u32 sizes", "images up to 4x3, rectangles of up to 5x5 at offsets -3..4, and at i32 limits", "large: canvases 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, shapes up to 150 long"], outside=["other contents of larger images"])
prop(id="C21", title="Line segments are connected, within half a pixel of the ideal, and clipped",
 statement="BresenhamLineIter yields one pixel per step of the major axis from the first to the last end point, each within half a pixel of the ideal segment, consecutive pixels being 8-neighbours; the pixel iterators visit, in order, the pixels of the walk between the end points clamped into the image; draw_line_segment colours exactly the in-image pixels of that walk and nothing else, for ends inside or outside; draw_antialiased_line_segment blends, at each step of the major axis, the two nearest pixels with weights summing to one.",
 q="all end points on grids around small images and at extreme coordinates; arbitrary contents and colours",
 why="eight octants, steep/shallow ties, clipped ends; the tests show six lines",
 files=["src/drawing/line.rs"], mech=[("error accumulation per step", "BresenhamLineIter::next"), ("bounds test per pixel", "draw_line_segment_mut, BresenhamLinePixelIter"), ("two-pixel plot", "plot_wu_line")],
 bounds=["end points in -3..6 and at the i32 limits", "images up to 5x4", "antialiased: ends in -2..5", "large: integer segments up to 1000 long in every octant; drawing on canvases up to 260 long"], outside=["long lines, where f32 error accumulates"])
prop(id="C22", title="Circles, ellipses, Bezier curves: symmetric, connected, near the ideal, clipped",
 statement="Hollow circles and ellipses are 8-connected closed outlines, symmetric about the centre, reaching exactly the four extreme points, with every pixel within 0.8 pixels of the ideal curve; filled ones cover exactly the spans between the outline's ends of each row; negative radii draw nothing as documented, zero radii a point or line; all are clipped to the image for any centre and radius without panic, and Bezier curves run from their first to their last point as a connected line near the curve.",
 q="all radii 0..7 and large ones, centres inside and outside including the i32 limits, arbitrary contents and colours",
 why="midpoint algorithms have region changes that fail for flat or large shapes; tests show one ellipse of each kind",
 files=["src/drawing/conics.rs", "src/drawing/bezier.rs"], mech=[("midpoint ellipse in two regions", "draw_ellipse"), ("midpoint circle by octants", "draw_hollow_circle_mut, draw_filled_circle_mut"), ("chords of a cubic", "draw_cubic_bezier_curve_mut")],
 bounds=["radii up to 7 and selected large ones", "canvases up to 17x17", "Bezier: fixed and arbitrary control points on a small grid", "large: circles up to radius 66, ellipses up to 70, Bezier curves of up to 900 pixels, clipped shapes on canvases up to 70 long"])
prop(id="C23", title="Polygons are filled, outlined and clipped consistently",
 statement="draw_polygon colours every pixel whose centre is inside the polygon or on its outline, and no pixel more than about half a pixel away from it; the result does not depend on which vertex comes first or on orientation; draw_hollow_polygon draws exactly the segments between successive vertices including the closing one; the antialiased variant fills the same interior; polygons partly or wholly outside the image are clipped; open and closed vertex lists give the same result, and a hollow polygon of a single point is refused.",
 q="triangles and quadrilaterals with one vertex ranging over a grid, concave and self-crossing templates, all positions relative to the image",
 why="scan-line filling depends on vertex rows, horizontal edges and crossing parity; the tests show a handful of polygons",
 files=["src/drawing/polygon.rs"], mech=[("scan-line intersections, sorted and paired", "draw_polygon_with_mut"), ("edges drawn on top", "draw_polygon_mut, draw_hollow_polygon_mut")],
 bounds=["3-5 vertices in -2..6", "images up to 6x5 and empty ones", "large: stars, zigzags, combs and random polygons of 12-40 vertices on 40x30, 70x9, 9x70"])
prop(id="C24", title="Flood fill changes exactly the connected region of the start pixel",
 statement="flood_fill gives every pixel that is joined to the start pixel by 4-neighbours of the same colour the new colour and leaves all others unchanged, for any image contents, start and new colour, including the colour the region already has; a start outside the image is refused.",
 q="all binary images up to 4x3, 3x4 and 5x3 and all 8-bit images of up to 6 pixels, every start, any colour; mazes with free cells",
 why="span filling pushes seeds by runs; errors need spans that branch around obstacles in particular ways",
 files=["src/drawing/fill.rs"], mech=[("span stack", "flood_fill_mut")],
 bounds=["binary up to 4x3/3x4/5x3 (thorough 4x4, 5x4, 3x6)", "7x7 mazes with free cells", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, noise, rings and serpentines"])
prop(id="C25", title="Hough votes, peaks and drawn lines agree with plane geometry",
 statement="Without suppression detect_lines returns exactly the lines (whole distance r, whole angle) for which at least vote_threshold foreground pixels have x cos + y sin truncating to r; with suppression only those of the greatest vote in the block around them, no two in one block, and every strict maximum; intersection_points gives the two ends of the part of the line inside the closed image rectangle, and None exactly when they are disjoint; draw_polar_lines draws the segments between those points.",
 q="all subsets of up to three foreground pixels of any brightness, all thresholds; all whole distances and a grid of angles for several image sizes, all angles through the corners",
 why="180 x diagonal buckets per image; the tests show one line at a time and no line through a corner other than the origin",
 files=["src/hough.rs", "src/suppress.rs"], mech=[("vote accumulation at truncated distances", "detect_lines"), ("choice among the four sides", "intersection_points")],
 bounds=["images up to 4x3 and 5x1 with three arbitrary pixels (thorough 5x5 with seven)", "boxes 5x4, 4x4, 14x14, 2x7, 9x1 with all whole r and up to 26 angles (thorough all 180)", "large: 37x23, 90x4, 4x90; lines of 300 votes; intersections with frames up to 640x480 and 33x1000"], outside=["images of 65536 or more pixels in width or height, where width*width overflows u32 (cannot be run here)", "pixels within 1e-4 of a bucket's edge may go to either"])
prop(id="C26", title="Template matching scores are the documented sums and extremes the true ones",
 statement="match_template and match_template_with_mask return for each position of the template within the image the documented score (squared error, cross correlation, and either divided by the norms when these are positive), serial and parallel agree bit for bit in any task order, an exact copy scores zero error; templates that do not fit and masks of another size are refused; find_extremes returns the smallest and largest pixel and the first position of each in row order, and refuses empty images.",
 q="all contents of images up to 3x2 and templates up to 2x2 for the plain sums, one arbitrary pixel for normalised and masked ones; all images up to 6 pixels for extremes, all non-NaN floats up to 2x2",
 why="four methods, masks and parallel versions are eight code paths; tests use one small image",
 files=["src/template_matching.rs"], mech=[("unsafe sliding window", "ImageTemplate::slide_window_at, ImageTemplateMask::slide_window_at"), ("scores per method", "methods::*"), ("row-parallel evaluation", "match_template_parallel")],
 bounds=["sums: up to 3x2 images, 2x2 templates, all contents (4-bit with masks)", "others: 4x3 images with one arbitrary pixel", "large: images 37x23, 70x9, 9x70, 130x3, 20x20 with templates up to 64 wide and 33 high, one arbitrary pixel"], outside=["rounding of sums beyond 2^24", "empty templates"])
prop(id="C27", title="Seam carving removes a connected path of least energy",
 statement="find_vertical_seam returns one column per row, moving by at most one column between rows, whose sum of mean Sobel gradient magnitudes is the least of all such paths; remove_vertical_seam removes exactly those pixels; shrink_width does so until the requested width, refusing a larger one; draw_vertical_seams marks red exactly the pixels of the original image which the seams removed one after the other.",
 q="all two-valued images up to 3x3, wider ones with free pixels, one arbitrary pixel value",
 why="trace-back errors still give plausible seams; the existing tests do not compare with the least path",
 files=["src/seam_carving.rs", "src/gradients.rs"], mech=[("dynamic programme", "set_path_energy"), ("trace-back", "find_vertical_seam"), ("column bookkeeping over several seams", "draw_vertical_seams")],
 bounds=["two-valued up to 3x3 (thorough 4x4, 3x4)", "4x3 with 6 and 5x5 with 4 free pixels", "three seams on 4x3", "large: 20x12, 33x17, 70x4, 4x70, 200x2, 2x200 with three free pixels; 11 seams of 20x6"])
prop(id="C28", title="Local binary patterns compare the centre with its eight neighbours, bit by bit",
 statement="local_binary_pattern is None exactly for pixels without eight neighbours in the image (any coordinates, any image size) and otherwise has bit n (counted from the least significant, as in the documented example) set iff the pixel is strictly brighter than its n-th neighbour clockwise from the top, so that it does not depend on overall brightness. min_shift is the least of the eight rotations of a byte and MIN_SHIFT tabulates it; count_transitions is the number of bit changes around the byte; UNIFORM_REPRESENTATIVE_2 maps bytes with at most two transitions to their least rotation and all others to 10101010.",
 q="all contents of every 3x3 neighbourhood, all coordinates, all 256 bytes",
 why="tables of 256 entries and eight comparisons; tests look at a few patterns and bytes",
 files=["src/local_binary_patterns.rs"], mech=[("unchecked reads of the eight neighbours", "local_binary_pattern"), ("tables", "MIN_SHIFT, UNIFORM_REPRESENTATIVE_2")],
 bounds=["all contents of images of eight sizes up to 4x4, all positions", "all bytes; all u32 coordinates for 0x0..3x3 images", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260, five arbitrary pixels, corners, borders and centre"])
prop(id="C29", title="Mapping functions apply the function to every pixel once, at its place",
 statement="map_subpixels, map_pixels and map_enumerated_pixels, their in-place and their parallel versions (for any order of the parallel tasks) return an image of the same dimensions in which every channel or pixel is the function of the one at the same place (and, for the enumerated ones, of its coordinates); map_pixels2 combines two images of equal dimensions and refuses unequal ones; into_*_channel and from_*_channel take and restore exactly their channel.",
 q="all contents of images of several sizes including empty ones, a symbolic function parameter, all task orders of small parallel runs",
 why="twelve variants of the same loop, four of them parallel; tests run a few on one image and the parallel ones not at all",
 files=["src/map.rs"], mech=[("output by par_iter over raw pixels", "map_*_parallel"), ("channel projections", "into_*/from_*_channel")],
 bounds=["images up to 3x2, all contents", "parallel: every order of up to 3 tasks, the two extreme orders above", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260 with four arbitrary values, both extreme task orders"], over=["parallel tasks of rayon are executed one after another in the chosen orders"])
prop(id="C30", title="Clamping saturates, pixel arithmetic is exact, black and white are the extremes",
 statement="Clamp converts any integer or non-NaN float to the nearest value of the target type (truncating fractions), same-type clamping is the identity; weighted_sum and interpolate give for every channel by itself the weighted sum, truncated and saturated, with interpolate lying between its arguments for weights in 0..=1 and equal to them at the ends; HasBlack and HasWhite are zero and full intensity with opaque alpha.",
 q="all values of every source type (all 32- and 64-bit floats included); all pairs of 8- and 16-bit channels for representable weights, all 256 weights k/255 for chosen pairs",
 why="conversions go wrong at one end of a range; tests check one value above and below for few type pairs",
 files=["src/definitions.rs", "src/pixelops.rs"], mech=[("comparison before cast", "implement_clamp!"), ("float sum and clamp", "weighted_channel_sum")],
 bounds=["weights: sixteenths between -8 and 40, and k/255"], outside=["NaN", "weights beyond those"])
prop(id="C31", title="Haar-like features: all of them, each once, evaluated and drawn alike",
 statement="enumerate_haar_features returns for every frame size exactly the features of the five documented kinds, every block size, position and sign that fit the frame, each once, up to sides of 255; number_of_haar_features is their number; evaluate is the sum of the image under the white minus that under the black part as draw_haar_feature paints it, and refuses integral images into which the feature does not fit; drawing changes no other pixel.",
 q="all image contents for every feature of frames up to 4x4 and 6x3; the count for all widths 0..255",
 why="hundreds of features with up to nine signed corners each; tests evaluate a reference for small frames of one image",
 files=["src/haar.rs"], mech=[("signed corner sums read unchecked", "HaarFeature::evaluate"), ("ranges of block sizes and positions", "block_sizes, start_positions"), ("closed formula", "number_of_haar_features")],
 bounds=["frames up to 4x4, 6x3, 1x6; 255x1, 1x255, 255x0 for enumeration", "counts: one side 0..255, the other 1, 2, 3, 7, 255", "large: every k-th feature of frames 24x24, 100x3, 3x100, 255x1, 1x255, 40x16"])
prop(id="C32", title="HoG descriptors are normalised histograms of gradient directions",
 statement="HogSpec accepts options exactly if cells tile the image and blocks the cells (an error otherwise, never a panic, for any numbers), and descriptor_length counts the values; hog gives for every block the histograms of its cells, each pixel's Sobel gradient magnitude (borders replicated) shared bilinearly between neighbouring cells and directions, signed or unsigned, scaled to unit length, and zeros without gradients; render_hist_grid shows in the square of each cell the rays of its own histogram.",
 q="every level of one pixel in six images and option sets; all widths 0..9 against small options and extreme ones",
 why="wrap-around of directions and division of cells meet in few pixels; tests only check lengths and one error message",
 files=["src/hog.rs"], mech=[("checked dimensions", "HogSpec::from_options"), ("interpolated voting", "cell_histograms, Interpolation"), ("block normalisation", "hog_descriptor_from_hist_grid"), ("rendering in a sub-image", "render_hist_grid")],
 bounds=["images up to 6x4 and 3x6, one free pixel, 1-9 orientations", "tolerance 2e-4 against an f64 reference", "large: 24x16 to 32x32 and 64x3, up to 18 orientations"])
prop(id="C33", title="BRIEF bits are their tests' outcomes; matching returns nearest descriptors",
 statement="brief returns for each keypoint, in order, one bit per test pair (first pair in the most significant bit of the first word) telling whether the mean of the 5x5 square (clipped to the image) around the pair's first point in the 31x31 patch is less than around the second; keypoints less than 17 pixels from an edge and lengths that are no multiple of 128 or differ from the number of pairs are errors. hamming_distance counts differing bits and get_bit_subset concatenates the chosen bits, both refusing what they document. match_binary_descriptors pairs descriptors of d1 with such of d2, each nearest among those hashed alike and nearer than the threshold, finds every exact copy, and matches each at most once.",
 q="every level of one pixel for 128 and 256 tests; all words of two-word descriptors; all sets of up to 2x3 and 1x4 short descriptors",
 why="bit positions and hash tables hide errors that still give plausible distances; no test computes a BRIEF descriptor or a match",
 files=["src/binary_descriptors/brief.rs", "src/binary_descriptors/mod.rs"], mech=[("bits shifted into 128-bit words", "brief_impl"), ("unchecked integral image reads", "local_pixel_average"), ("locality-sensitive hashing", "match_binary_descriptors")],
 bounds=["images 33x33 to 40x36", "keypoints: one coordinate 0..70, the other at chosen places up to the limit of u32", "matching: descriptors of 2-3 bits, two seeds (thorough 2x4)"],
 outside=["random test pairs (thread_rng)", "matching without a seed", "test pairs outside the patch"])
prop(id="C34", title="Synthetic noise follows its seed, rate and distribution, channel by channel",
 statement="gaussian_noise adds to each channel in turn the next sample of the normal distribution of the seed's generator, clamped to the channel's range; salt_and_pepper_noise makes pixels wholly white or black or keeps them, at places that depend on seed and rate only, none for rate zero and all for rate one, about the given share in all and about equally often either; in-place and copying variants agree and repeat exactly.",
 q="all image contents; all rates k/256 for four seeds",
 why="the existing code has no tests of noise at all",
 files=["src/noise.rs"], mech=[("sampling per channel", "gaussian_noise_mut"), ("two uniform samples per pixel", "salt_and_pepper_noise_mut")],
 bounds=["images up to 3x2 (shares: up to 20x20)", "four seeds, six normal distributions", "large: 37x23, 130x3, 2x260"], assume=["the generator of the rand crate itself is executed, not judged"])
prop(id="C35", title="Perceptual hashes compare the low cosine frequencies",
 statement="The hamming distance of two hashes is the number of the 8x8 lowest non-constant frequencies of the two images' 32x32 resized discrete cosine transforms that exceed the mean of these in one image only; it is symmetric, zero only for equal hashes and obeys the triangle inequality; scaling the brightness of an image within the range 0 to 1 of such images changes nothing and images of any size are accepted.",
 q="every level of one pixel of images of five sizes",
 why="transposition or off-by-one choices of frequencies still give a hash; tests only compare a few hashes with each other",
 files=["src/image_hash/phash.rs", "src/image_hash/signals.rs", "src/image_hash/bits.rs"], mech=[("separable transform with transpositions", "dct2d"), ("selection and comparison with the mean", "phash"), ("bit set", "Bits64")],
 bounds=["4x4, 6x3, 32x32, 40x33, 32x36 with one free pixel", "frequencies within 1e-3 of the mean may count either way"], outside=["other image contents", "values beyond 0..1, which the image crate clamps on resizing"])
prop(id="C36", title="Text is mixed in by glyph coverage, laid out by advances, and clipped",
 statement="draw_text mixes the colour into each pixel by the share of it which each glyph covers, glyphs being placed one after the other by their advances and kerning with the font's ascent above the base line, at any scale (also unequal in x and y) and position, however far outside the image; nothing else changes; text_size is one more than the rounded-up width of the layout and the rounded-up height of the font, zero for empty text.",
 q="all image contents and colours, glyphs with partial coverage, all positions around the image and the limits of i32, all sizes k/8",
 why="tests compare one rendered sentence; clipping, fractional placement and kerning are not tested",
 files=["src/drawing/text.rs"], mech=[("pen position", "layout_glyphs"), ("coverage mixing and bounds test", "draw_text_mut")],
 bounds=["a font of three box glyphs implemented by the harness", "images up to 9x9, texts of up to four characters"], outside=["real fonts (parsing is the ab_glyph crate's)"])
prop(id="C37", title="Drawing works on any canvas: only inside, blended on request, in place or copied",
 statement="Every shape draws on any Canvas only inside its dimensions and in the given colour, and changes on an image exactly the pixels it draws on any canvas; lines, filled rectangles and crosses draw each pixel once. Blend blends each drawn pixel with the colour by Pixel::blend (opaque colours replace, transparent ones do nothing) and leaves others; the functions returning an image equal the in-place ones and leave their argument alone.",
 q="all image contents and colours, eleven shapes in 100 places; every place around the image for shapes with whole coordinates",
 why="user canvases and Blend go through the same generic code, but tests draw on images only",
 files=["src/drawing/canvas.rs", "src/drawing"], mech=[("blanket implementation for GenericImage", "Canvas"), ("read, blend, write", "Blend::draw_pixel")],
 bounds=["images up to 7x8", "shapes of up to 6 pixels"])
prop(id="C38", title="Comparison helpers report exactly the differences; literals and norms are exact",
 statement="pixel_diffs lists in row order exactly the pixels that differ by the given predicate with both values; pixel_diff_summary is None exactly for equal images; assert_pixels_eq, assert_pixels_eq_within and assert_dimensions_match panic exactly for images that differ (by more than the tolerance, in size); descriptions of differences can be made anywhere in an image; gray_image!, rgb_image! and rgba_image! put every value at its place; l1_norm and l2_norm are the sum of sizes and the root of the sum of squares.",
 q="all contents of small images and all tolerances",
 why="users' own tests rely on these helpers; that they fail when they should is not tested",
 files=["src/utils.rs", "src/math.rs"], mech=[("zip of two pixel iterators", "pixel_diffs"), ("rendering of a region", "describe_pixel_diffs"), ("literal macros", "gray_image!, rgb_image!, rgba_image!")],
 bounds=["images up to 3x2, 4x1 for contents; 12x9 and 1x130 for descriptions", "large: 37x23, 70x9, 9x70, 130x3, 3x130, 260x2, 2x260 with one arbitrary pixel at 16 places"])
prop(id="C39", title="Windows show images scaled into them",
 statement="display_image and display_multiple_images open windows of the requested size that show the images until closed.",
 q="all images and window sizes", why="needs a display", files=["src/window.rs"], mech=[("SDL2 event loop", "display_multiple_images")],
 na="the code is behind the display-window feature, needs the SDL2 C library (not installed) and a display, and consists of calls into it; nothing is left to encode")
