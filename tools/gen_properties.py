#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
PK = "micropolarray/"
PR = PK + "processing/"
prop("C01", "Splitting into and merging from single-polarization images are inverse",
 "Splitting an even-sized micropolarizer array gives four half-size images, where image 2*j+i holds exactly the pixels (2y+j, 2x+i), and merging four equally sized images puts every sample back at that place; so merge(split(a)) equals a and split(merge(s)) equals s, value for value. Arrays with an odd number of rows or columns are refused with a ValueError instead of losing pixels.",
 ["inputs"], "every even and odd height and width, every pixel value, float and integer arrays",
 "tests split and merge only one 16x16 array whose four families are constant, so any permutation of pixels inside a family, non-square shapes and odd sizes are unseen",
 [PR+"demosaic.py"], [("split_polarizations", PR+"demosaic.py"), ("merge_polarizations", PR+"demosaic.py")],
 ["split_polarizations()", "merge_polarizations()", "MicropolImage.single_pol_subimages"])
prop("C02", "Stokes components come from the right pixel family for every angle map",
 "For an image that is neither demosaiced nor demodulated, with any assignment of the orientations 0, 45, -45, 90 to the four superpixel positions, I is half the sum of the four pixels of a superpixel, Q is the 0-degree pixel minus the 90-degree pixel and U is the 45-degree pixel minus the -45-degree pixel, superpixel by superpixel; the 0, 45, -45, 90 degree subimages are those same pixels. An explicitly given map wins over the default set by the user, which wins over the built-in camera map.",
 ["inputs", "configurations"], "every even image size and pixel value, all 24 orientation maps, explicit, user-set or built-in default map",
 "tests check two of the 24 orientation maps on one constant-family 16x16 image",
 [PK+"micropol_image.py", PK+"cameras.py"], [("theoretical Stokes computation", PK+"micropol_image.py"), ("angle dictionary resolution in the constructor", PK+"micropol_image.py"), ("PolarCam default map", PK+"cameras.py")],
 ["MicropolImage.I/Q/U", "MicropolImage.pol0/pol45/pol_45/pol90"], [dict(name="angle_dic", meaning="orientation -> position in superpixel", where=PK+"micropol_image.py")])
prop("C03", "pB, AoLP and DoLP follow their definitions; Malus light is recovered",
 "For every Stokes vector, polarized brightness is sqrt(Q^2+U^2), the angle of linear polarization is half the four-quadrant arctangent of (U, Q) and so lies in [-pi/2, pi/2], and the degree of linear polarization is sqrt(Q^2+U^2)/I, and exactly 0 wherever I is 0. For an ideal superpixel (orientations 0, 45, -45, 90) lit with intensity S, polarization angle a and efficiency e according to the Malus law the library provides, these definitions return I=S, pB=S*e, DoLP=e and (2*AoLP) equal to 2a modulo 2*pi.",
 ["inputs"], "every Stokes triple (any sign, zero intensity, zero Q and/or U), every angle, intensity and efficiency",
 "tests evaluate a few constant Stokes vectors and a list of angles whose final value only is asserted",
 [PK+"polarization_functions.py", PK+"micropol_image.py", PR+"demodulation.py"], [("AoLP, DoLP, pB", PK+"polarization_functions.py"), ("Malus", PR+"demodulation.py")],
 ["MicropolImage.pB/AoLP/DoLP", "Malus()"])
prop("C04", "Polarization parameters always reflect the current pixel data",
 "After every operation that gives an image new pixel data (construction with dark or flat, dark subtraction, flat correction, field-of-view correction, rebinning, shifting, adding, subtracting, multiplying, dividing, hot-pixel cleaning) the Stokes components are the theoretical ones of the new data, never values left over from the old data. If the image had been demosaiced they are the full-resolution ones of the demosaiced new data (same demosaicing mode); otherwise the half-resolution ones.",
 ["histories", "inputs"], "every public data-changing operation applied in any history state (fresh, demosaiced with either mode, demodulated), for every image content",
 "tests apply each operation once to a fresh image and never look at the parameters of an image that was demosaiced before the operation",
 [PK+"micropol_image.py"], [("data and Stokes update", PK+"micropol_image.py"), ("demosaiced image cache", PK+"micropol_image.py")],
 ["MicropolImage.I/Q/U after each operation"], [dict(name="Stokes_vec", meaning="cached Stokes components", where=PK+"micropol_image.py"), dict(name="demosaiced_images", meaning="cached full resolution families", where=PK+"micropol_image.py")])
prop("C05", "Binning sums exactly the right pixels, for any size and binning",
 "Binning a micropolarizer image by b gives an image whose pixel of each family in superpixel (Y, X) is the sum of the b*b same-family pixels of superpixels Yb..Yb+b-1, Xb..Xb+b-1; binning a plain image by b gives block sums of b*b neighbouring pixels. The size is first reduced to the largest compatible size by dropping trailing rows and columns only, no pixel outside the array is ever read, and a binning of 0 or less is refused with a ValueError.",
 ["inputs"], "every (even, for micropolarizer images) height and width, every binning >= 1 including ones that do not divide the size, every pixel value",
 "tests bin a 16x16 constant-family image by 2 and 4 only: no trimming, no non-square image, no odd binning",
 [PR+"rebin.py", PK+"micropol_image.py", PK+"image.py"], [("micropolarizer binning kernel", PR+"rebin.py"), ("plain binning kernel", PR+"rebin.py"), ("trimming", PR+"rebin.py")],
 ["MicropolImage.rebin()", "Image.rebin()", "trim_to_match_binning()"])
prop("C06", "Demosaicing places and interpolates every family correctly up to the border",
 "Mean demosaicing gives, for each of the four families, a full-size image equal everywhere in a superpixel to one quarter of that family's sample. Adjacent demosaicing gives, for each family, a full-size image that keeps the family's sample at the top-left pixel of its superpixel, and has the average of the two (horizontally, vertically) or four (diagonally) nearest samples to the right/below elsewhere, using the last superpixel again beyond the border. The input array is not modified, and an unknown mode is refused with a ValueError.",
 ["inputs"], "every even height and width (including a single superpixel and non-square), every pixel value",
 "tests demosaic one constant-family image, on which any interpolation rule gives the same answer",
 [PR+"demosaic.py", PK+"micropol_image.py"], [("demosaicmean / demosaicadjacent kernels", PR+"demosaic.py"), ("border replication", PR+"demosaic.py")],
 ["demosaic()", "MicropolImage.demosaic()"])
prop("C07", "Shifting moves every pixel by the requested amount and fills the rest",
 "A plain shift by (y, x) gives pixel (j, i) the old pixel (j-y, i-x) if that lies in the image, and the fill value otherwise; a micropolarizer shift does the same separately for each pixel family, so a pixel never lands on another family. This holds for shifts of either sign, also larger than the image, and the shape is unchanged.",
 ["inputs"], "every image size and content, every pair of integer shifts, every fill value",
 "tests try two shifts by one pixel on a 4x4 image",
 [PR+"shift.py", PK+"image.py", PK+"micropol_image.py"], [("shift kernel", PR+"shift.py"), ("per-family shift", PR+"shift.py")],
 ["Image.shift()", "MicropolImage.shift()"])
prop("C08", "Demodulation applies the tensor of each superpixel, and theory where no fit",
 "Demodulating without demosaicing gives, in every superpixel, I, Q, U as the three rows of that superpixel's demodulation matrix times its four pixel values; with demosaicing it gives at every full-resolution pixel the matrix of the superpixel containing it times the four demosaiced values at that pixel. Wherever the demodulator marks a superpixel as not fitted, the theoretical Stokes components are used instead; without such marks (none available) the matrix is used everywhere. The demodulated image keeps the pixel data of the source and the source image is unchanged.",
 ["inputs", "configurations"], "every tensor, every image content and even size, every pattern of fit marks or none, with and without demosaicing",
 "tests use tensors and images that are constant over the frame, so any mix-up of superpixels, and the masks, are invisible; demodulation with demosaicing is never run",
 [PK+"micropol_image.py", PR+"demodulation.py"], [("matrix product over superpixels", PK+"micropol_image.py"), ("fit mark fallback", PK+"micropol_image.py")],
 ["MicropolImage.demodulate()"], [dict(name="mij", meaning="demodulation tensor (3,4,y,x)", where=PR+"demodulation.py"), dict(name="fit_found_flags", meaning="1 where the fit converged", where=PR+"demodulation.py")])
prop("C09", "The calibration tensor of a superpixel does not depend on how work is split",
 "When the demodulation tensor is calculated, the saved matrices, transmittancies, efficiencies, phases, fit flags, covariances and chi-squares of a superpixel depend only on that superpixel's own pixels in the input images, never on which worker or block it was given to: every grid of workers that divides the image into even blocks gives the same files, with every superpixel present at its own place. A grid that would leave part of the image out is refused with an error rather than silently saved as zeros.",
 ["inputs", "configurations"], "every image content and size, every worker grid, every occulted region, whatever the fit of each pixel returns or raises",
 "the single calibration test uses one square grid on a spatially constant image, so misplaced or dropped blocks and values leaking from one superpixel to the next are invisible",
 [PR+"demodulation.py"], [("splitting into blocks", PR+"demodulation.py"), ("merging of blocks", PR+"demodulation.py"), ("per-superpixel fit loop", PR+"demodulation.py")],
 ["calculate_demodulation_tensor() output files"])
prop("C10", "Loading a demodulator reads each matrix element from its own file",
 "Loading a demodulator from a folder gives tensor element (i, j) exactly the content of the file whose name carries the two digits ij, and the fit marks the content of the fit-flag file (none if absent), whatever order the folder is listed in and whatever other FITS files without two-digit names lie there. A folder that is missing, has no FITS files, or lacks any of the twelve elements is refused with an error.",
 ["inputs", "configurations"], "every content of the twelve element files, every directory listing order, every subset of missing files, extra files",
 "tests load complete folders in whatever order the file system lists them",
 [PR+"demodulation.py"], [("tensor loading", PR+"demodulation.py")], ["Demodulator()"])
prop("C11", "Image arithmetic is pixelwise, keeps identity data, and is defined at zero",
 "Adding, subtracting, multiplying or dividing two images, or an image and a number, gives an image whose every pixel is that operation on the corresponding pixels, and keeps the header and (for micropolarizer images) the orientation map of the left operand. Division gives exactly 0, not arbitrary memory content, at pixels where the divisor is 0.",
 ["inputs"], "every pair of equally sized images and every number, including zero divisors, float and integer pixels",
 "tests combine two constant images without zeros",
 [PK+"image.py", PK+"micropol_image.py"], [("operator overloads", PK+"image.py"), ("operator overloads", PK+"micropol_image.py")],
 ["+, -, *, / on Image and MicropolImage"])
prop("C12", "Operations that return a new image leave their operands untouched",
 "Copy-constructing, rebinning, resizing, rotating, shifting, demodulating, hot-pixel cleaning and arithmetic return a new image and leave the pixel data, Stokes components, header, orientation map and demosaiced images of the image (and of any second operand) exactly as they were. The result can be altered through in-place operations (dark, flat, demosaicing, occulter masking, field-of-view correction) afterwards without the original changing.",
 ["histories", "inputs"], "every such operation followed by any in-place operation on the result, for every image content and state",
 "tests never look at the original image after an operation",
 [PK+"micropol_image.py", PK+"image.py"], [("copy construction", PK+"micropol_image.py"), ("data setter updating the header", PK+"image.py"), ("rotation", PK+"micropol_image.py")],
 ["original image's data, I/Q/U, header"], [dict(name="header", meaning="FITS header with NAXIS1/NAXIS2", where=PK+"image.py")])
prop("C13", "Dark subtraction and flat correction are exact for every pixel type",
 "Subtracting a dark gives every pixel max(data - dark, 0) in ordinary arithmetic, also when images hold unsigned integers. Flat correction divides every pixel by flat/mean(flat), so it does not change when the flat is multiplied by a constant, and leaves pixels where the flat is 0 as they were; when both are given to the constructor, the dark is applied first.",
 ["inputs"], "every image, dark and flat content of equal even size, float, signed and unsigned integer pixels, flats with zeros",
 "tests subtract an image from itself and correct a constant image with a constant flat",
 [PK+"micropol_image.py"], [("dark subtraction", PK+"micropol_image.py"), ("flat correction", PK+"micropol_image.py")],
 ["MicropolImage(dark=, flat=)", "subtract_dark()", "correct_flat()"])
prop("C14", "Polar regions select exactly the annulus and angles asked for",
 "Selecting a polar region keeps exactly the pixels whose distance from the centre is above the inner and at most the outer radius and whose anticlockwise-in-index angle is in [theta_min, theta_max), fills all others with the fill value, and in superpixel mode takes the decision once per superpixel (half-size coordinates, radii and centre halved and truncated) so that the four pixels of a superpixel are kept or dropped together; asking for a boolean gives that same selection. With no centre or radii given it uses the image centre and the nearest far border; occulter masking applies the same selection (outside the occulter radius) to the data and to every Stokes component.",
 ["inputs"], "every image size, centre, radii, angle range and fill value, both superpixel modes, repeated calls with cached coordinates",
 "no test covers polar regions or occulter masking",
 [PR+"nrgf.py", PK+"micropol_image.py", PK+"cameras.py"], [("roi_from_polar", PR+"nrgf.py"), ("cached polar coordinates", PR+"nrgf.py"), ("mask_occulter", PK+"micropol_image.py"), ("camera occulter masks", PK+"cameras.py")],
 ["roi_from_polar()", "MicropolImage.mask_occulter()", "PolarCam().occulter_mask()/occulter_roi()"])
prop("C15", "Saving, loading and combining FITS images preserves every pixel",
 "Loading a saved image gives back exactly the saved pixels, with fixto clipping values to the given minimum and maximum (including a bound of 0) and nothing else; the clipped or per-parameter files hold the matching family, demosaiced image or Stokes parameter, labelled with its own orientation or name. Loading a list of n files gives their pixelwise mean, or their sum when averaging is turned off, for every n; names without the .fits extension are refused.",
 ["inputs"], "every pixel content and size, every number of files, averaging on or off, every clipping range",
 "tests save and load a single image, never several, never with clipping, and do not read the per-parameter files",
 [PK+"image.py", PK+"micropol_image.py", PK+"utils.py"], [("file initialisation", PK+"image.py"), ("save functions", PK+"micropol_image.py"), ("fix_data", PK+"utils.py")],
 ["Image()/MicropolImage() from file names", "save_as_fits()", "save_*()"])
prop("C16", "Raw camera files are decoded exactly and never lost",
 "Decoding packed 12-bit data gives for every three bytes b0 b1 b2 the two pixels 16*b0 + b1 div 16 and 16*b2 + b1 mod 16 in order, for every byte content; plain raw files are read as little-endian unsigned 16-bit numbers, and merging n of them saves the pixelwise sum (or the mean). A converted file is written beside the raw file under the same name with only the extension changed, and the raw file is removed only when asked to and only after the FITS file has been written.",
 ["inputs", "crash_points"], "every byte content and length, every number of files, every path (dots in folder or file names), failure at any step of the conversion",
 "no test covers raw files",
 [PR+"convert.py"], [("three_bytes_to_two_ints / nparr_from_binary", PR+"convert.py"), ("merge_rawfiles_to_fits", PR+"convert.py"), ("convert_rawfile_to_fits", PR+"convert.py")],
 ["convert_set()", "merge_rawfiles_to_fits()", "average_rawfiles_to_fits()", "convert_rawfile_to_fits()"])
prop("C17", "Errors propagate to first order through tensor, pB, DoLP and AoLP",
 "The error of each Stokes component is the root of the sum over the four pixels of (matrix element times pixel error) squared. The errors of pB, DoLP and AoLP are the first-order propagation of the Stokes errors through their definitions, for every Stokes vector whose polarized brightness (and, for DoLP, intensity) is not zero, including those with Q = 0 or U = 0.",
 ["inputs"], "every tensor, pixel error, Stokes vector (any signs, Q=0 or U=0) and Stokes error",
 "no test covers the error functions",
 [PR+"demodulation_errors.py"], [("get_error_on_Stokes", PR+"demodulation_errors.py"), ("get_error_on_pB/DoLP/AoLP", PR+"demodulation_errors.py")],
 ["MicropolImageError"])
prop("C18", "Angle normalisation lands in the half-open half turn, same direction",
 "Normalising a list of angles in degrees gives, in the same order and number, angles in (-90, 90] that differ from the given ones by a multiple of 180; normalising an array of angles in radians gives an equally shaped array of angles in (-pi/2, pi/2] that differ from the given ones by a multiple of pi. Both end for every finite angle, and a single angle is treated as a list of one.",
 ["inputs"], "every real angle, positive or negative, on and off the boundary, lists and arrays of every length",
 "no test calls the normalisation functions",
 [PK+"utils.py", PK+"polarization_functions.py"], [("normalize2pi", PK+"utils.py"), ("normalize2piarray", PK+"utils.py")],
 ["normalize2pi()", "normalize2piarray()"])
prop("C19", "A linear profile runs from start to end and reads only its own pixels",
 "Sampling along a line from one pixel to another visits max(|dy|,|dx|)+1 pixels, begins at the start pixel, ends at the end pixel, never leaves the rectangle spanned by the two, moves by at most one row and one column per step, and returns for each visited pixel its row, its column and the value stored there; a line of zero length visits its single pixel.",
 ["inputs"], "every pair of end points inside the image (any direction, equal points), every image content",
 "no test covers line profiles",
 [PR+"linear_roi.py"], [("DDA", PR+"linear_roi.py"), ("linear_roi", PR+"linear_roi.py")],
 ["linear_roi()", "DDA()"])
prop("C20", "The radial filter standardises every ring with its own mean and deviation",
 "The radial gradient filter gives every pixel, whose distance from the centre lies in the ring (r, r+step] and whose angle lies in the output range, the value (pixel - mean)/std with mean and standard deviation taken over that ring's pixels within the averaging angles, or 0 where that deviation is 0, and gives 0 to every pixel outside all rings or outside the output angles. Each pixel is computed from the original data, and the input is not modified.",
 ["inputs"], "every image content and size, centre, starting radius, step and pair of angle ranges",
 "no test covers the filter",
 [PR+"nrgf.py"], [("nrgf", PR+"nrgf.py"), ("map_polar_coordinates", PR+"nrgf.py")], ["nrgf()"])
prop("C21", "Field-of-view and Chen-Wan-Liang corrections act on the right superpixels",
 "Field-of-view correction gives every pixel outside the first two rows and columns the mean of itself and the same-family pixels one superpixel up, left and up-left, and 0 in the first two rows and columns. Chen-Wan-Liang calibration gives every superpixel its own 4x4 matrix times (pixels minus offsets), in row-major pixel order, followed by that correction; no superpixel is influenced by another one's matrix.",
 ["inputs"], "every image content and even size, every calibration matrix and offset field",
 "no test covers these corrections",
 [PR+"chen_wan_liang_calibration.py", PK+"micropol_image.py"], [("_ifov_jitcorrect", PR+"chen_wan_liang_calibration.py"), ("chen_wan_liang_calibration", PR+"chen_wan_liang_calibration.py")],
 ["MicropolImage.correct_ifov()", "chen_wan_liang_calibration()"])
prop("C22", "Hot-pixel cleaning replaces flagged pixels only, within their own family",
 "Detecting hot pixels gives a map that is 1 exactly where a pixel's contrast (p-m)/(p+m) against the median m of its own family's 2x2 neighbourhood exceeds the threshold, and 0 elsewhere. Cleaning with a map replaces exactly the pixels where the map is 1 by that median and leaves every other pixel unchanged.",
 ["inputs"], "every image and map content of equal even size, every threshold",
 "no test covers hot pixels",
 [PR+"image_cleaning.py", PK+"micropol_image.py"], [("get_hot_pixels", PR+"image_cleaning.py"), ("clean_hot_pixels", PK+"micropol_image.py")],
 ["get_hot_pixels()", "MicropolImage.clean_hot_pixels()"])
prop("C23", "Statistical thresholds, noise and solar-brightness units follow their formulas",
 "The mean-based bounds are mean -/+ n*standard deviation and the median-based ones median -/+ n*median absolute deviation of the data, for every n; the noise of a pixel value p is sqrt(p/gain) for the fixed gain; the solar-brightness unit is solid angle * transmittancy * (diffuser exposure / image exposure) / diffuser signal. None of them modifies its input.",
 ["inputs"], "every data array, multiplier, exposure time and diffuser signal",
 "no test covers these helpers",
 [PK+"utils.py"], [("mean/median bounds", PK+"utils.py"), ("sigma_DN", PK+"utils.py"), ("get_Bsun_units", PK+"utils.py")],
 ["mean_minus_std() ... get_Bsun_units()"])
prop("C24", "Resizing interpolates linearly with fixed corners, family by family",
 "Resizing an array to new dimensions (each at least 2) keeps its four corner values, samples equally spaced positions in between with bilinear interpolation, and returns an unchanged array when the size is unchanged. Resizing a micropolarizer image does this separately for each pixel family, so families never mix, and reduces odd target dimensions to the next lower even ones.",
 ["inputs"], "every source and target size of at least 2 (4 for micropolarizer images) per side, every pixel value",
 "the only test resizes a constant-family image, on which every interpolation agrees",
 [PR+"congrid.py", PK+"micropol_image.py"], [("congrid", PR+"congrid.py"), ("MicropolImage.congrid", PK+"micropol_image.py")],
 ["congrid()", "MicropolImage.congrid()"])
prop("N01", "Fitted calibration parameters converge to the true Malus parameters",
 "For noise-free Malus-law measurements within the parameter bounds, the calculated transmittancy, efficiency and phase of every pixel agree with the true ones to the fit tolerance.",
 ["inputs"], "every parameter set within bounds and every polarizer orientation list",
 "the single test uses one parameter set",
 [PR+"demodulation.py"], [("per-pixel curve fit", PR+"demodulation.py")], ["calculate_demodulation_tensor()"])
prop("N02", "The occulter is found at its true centre and radius",
 "For an image with a dark disc on a bright background, the reported centre and radius agree with the disc to within one pixel.",
 ["inputs"], "every disc position and radius not touching the border", "no test covers occulter search",
 [PR+"nrgf.py"], [("find_occulter_position", PR+"nrgf.py"), ("find_occulter_hough", PR+"nrgf.py")], ["find_occulter_position()"])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(json.dumps(p))
