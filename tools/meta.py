"""Writes properties.jsonl and MANIFEST.json from the entries below: python3 tools/meta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the current source with z3/cvc5 deciding every branch and assertion'
FTECH = 'symbolic execution of the current Python and of the Fortran kernel (via gfortran tree dump), decided by z3/cvc5'
PROPS = []


def P(id, title, statement, q, why, files, mech, over=('inputs', 'configurations'), tech=TECH, note='', na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=q), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), tech=tech, note=note, na=na))


P('P01', 'Remapping between 1D grids is the exact overlap average',
  'Remapping a field from one regular 1D grid to another gives, in every output cell, the sum over the input cells of value times overlap length divided by the output cell width. '
  'Parts of an output cell outside the input box contribute nothing, an omitted output box size means the input one, and omitted origins are 0.',
  'every pair of box sizes and origins, every field, every (small) pair of grid sizes',
  'The tests never call the remap code; an off-by-one at a cell edge shows only for particular alignments of the two grids.',
  ['magpie/remap/grid2grid.py', 'magpie/src/remap_1d_grid2grid.f90'],
  [('grid2grid1D', 'magpie/remap/grid2grid.py'), ('remap_1d_grid2grid kernel', 'magpie/src/remap_1d_grid2grid.f90')], tech=FTECH,
  note='grid sizes up to 3 (quick) / 4 (thorough); real arithmetic')
P('P02', 'Remapping between 2D and 3D grids is the exact overlap average',
  'Remapping a field between regular 2D or 3D grids gives, in every output cell, the sum over input cells of value times overlap area or volume divided by the output cell area or volume, '
  'axis by axis, for scalar or per-axis origins, box sizes and cell counts. Parts of an output cell outside the input box contribute nothing.',
  'every pair of box sizes and origins, every field, every (small) combination of per-axis grid sizes, scalar or list arguments',
  'The tests never call the remap code; an axis mix-up is invisible on square grids with equal boxes.',
  ['magpie/remap/grid2grid.py', 'magpie/src/remap_2d_grid2grid.f90', 'magpie/src/remap_3d_grid2grid.f90'],
  [('grid2grid2D, grid2grid3D', 'magpie/remap/grid2grid.py'), ('Fortran kernels', 'magpie/src/remap_2d_grid2grid.f90, magpie/src/remap_3d_grid2grid.f90')], tech=FTECH,
  note='per-axis sizes up to 3, one or two symbolic alignments at a time in 3D')
P('P03', 'Rebinning a 1D function gives the mean over the covered parts of the old bins',
  'Rebinning a binned 1D function gives, in every new bin, the weighted mean of the old values, where each old bin is weighted by the fraction of it that the new bin covers, times its own weight when weights are given. '
  'A new bin which lies outside the old range gives NaN, and parts outside the range are ignored.',
  'every set of old and new edges, every field, every positive weights, up to the stated numbers of bins',
  'No test calls the rebinning; the result depends on how many edges each new bin cuts, and on cuts that coincide with edges.',
  ['magpie/one_d/one_d.py'], [('rebin_1d', 'magpie/one_d/one_d.py')],
  note='up to 4 old bins and 2 new bins')
P('P04', 'Rebinning propagates errors and single-bin weights correctly',
  'When errors are supplied, the squared error of a new bin is the sum of (fraction of the old bin covered) times (old error squared), divided by the square of the sum of those fractions. '
  'The weights reported for one new bin are proportional to the fractions of each old bin it covers.',
  'every set of old and new edges, every set of errors, up to the stated numbers of bins',
  'No test calls the rebinning with errors or asks for the weights of a bin.',
  ['magpie/one_d/one_d.py'], [('rebin_1d sigma branch', 'magpie/one_d/one_d.py'), ('rebin_1d_single_bin_weights', 'magpie/one_d/one_d.py')],
  note='up to 4 old bins and 1 (quick) or 2 (thorough) new bins; errors without weights')
P('P05', 'Cartesian and polar coordinates convert into each other',
  'Converting Cartesian points to polar coordinates about a center gives a non-negative radius and an angle in [0, 2 pi] with x = r cos(phi) + x0 and y = r sin(phi) + y0, and the reverse conversion is its inverse. '
  'This holds for scalars and arrays alike, and inputs are left unchanged.',
  'every point, center and angle in the bounds, including the axes and the center itself; scalars, 1D and 2D arrays',
  'The tests sample a few points; quadrant borders and the branch that shifts negative angles depend on exact signs.',
  ['magpie/coords/conversions.py'], [('cart2polar, polar2cart', 'magpie/coords/conversions.py')], note='coordinates within 100; real arithmetic')
P('P06', 'Cartesian and spherical coordinates convert; ortho points lie on the sphere',
  'Converting Cartesian points to spherical coordinates about a center gives radius >= 0, phi in [0, 2 pi], theta in [0, pi] that describe the same point, and the reverse conversion is its inverse; scalars and arrays of any shape agree. '
  'The orthographic height puts every point inside the disc on the upper hemisphere of the given radius, and gives the fill value (default NaN) outside.',
  'every point, center and angle in the bounds, including axes, poles and the center itself; scalars, 1D and 2D arrays',
  'The tests sample a few points; degenerate points (r = 0, the poles) take their own branches.',
  ['magpie/coords/conversions.py'], [('cart2sphere, sphere2cart, ortho2cart', 'magpie/coords/conversions.py')], note='coordinates within 100; real arithmetic')
P('P07', 'Rotations of the unit sphere are the rotations they claim to be',
  'usphere_rotate applies the rotation that carries the start point to the end point along the great circle between them, and usphere_spin rotates by the given angle about the given axis; both keep every point on the sphere. usphere_shift turns the longitudes by the difference of the two longitudes and then moves along the meridian of the end point by the difference of the two colatitudes; usphere_phi_shift adds the shift and wraps into [0, 2 pi].',
  'every point on the sphere, every spin axis and angle, every rotation between the pole and another point',
  'The tests compare a few points; errors in a trigonometric branch (angles past pi, points at the pole) affect only some directions.',
  ['magpie/coords/usphere.py', 'magpie/coords/usphere_util.py'], [('usphere_shift, usphere_rotate, usphere_spin', 'magpie/coords/usphere.py'), ('usphere_phi_shift', 'magpie/coords/usphere_util.py')],
  note='angles unbounded within their ranges; end point not antipodal to the start; some spin branches are left undecided')
P('P08', 'HEALPix pixel numbers and (ring, position) pairs correspond one to one',
  'Each HEALPix ring-ordered pixel number maps to the ring and the position in that ring it has by definition, and back to itself.',
  'every pixel of each listed nside, scalars and arrays',
  'The tests use one or two nside; ring borders and the rounding of square roots depend on the pixel.',
  ['magpie/pixel/healpix_index.py'], [('healpix_pix2i, healpix_pix2ij, healpix_ij2pix', 'magpie/pixel/healpix_index.py')],
  note='nside 1,2,3,4,5,8,16,64 (quick), also 7,32,128,256 (thorough)')
P('P09', 'HEALPix pixel centres and diagonal index pairs follow the HEALPix projection',
  'The plane position of each pixel (from its ring and position, or from its number) is the HEALPix projection of its centre on the sphere, which projects back to the direction HEALPix defines; '
  'the dash and star index pairs convert back and forth and count pixel rows along the two diagonals.',
  'every ring and every position of each listed nside, scalars and arrays',
  'The tests sample one nside; each facet and cap has its own formula.',
  ['magpie/pixel/healpix_index.py', 'magpie/coords/healpix.py'], [('healpix_ij2xy, healpix_i2id, healpix_ijd2ijs, ...', 'magpie/pixel/healpix_index.py'), ('healpix_xy2ang', 'magpie/coords/healpix.py')],
  note='nside 1 to 5 (quick), also 8 (thorough)')

P('P10', 'The HEALPix projection and its inverse undo each other and preserve area',
  'Projecting a direction on the unit sphere to the HEALPix plane gives, in the equatorial belt |cos(theta)| <= 2/3, x = phi and y = 3 pi cos(theta) / 8, and in the polar caps the equal-area triangles of HEALPix around the facet centre. '
  'The inverse projection returns the direction, and projecting a plane point to the sphere and back returns the point; scalars and arrays agree, inputs are left unchanged, the poles project to y = pi/2 and -pi/2.',
  'every direction on the sphere and every plane point inside the belt or a polar facet, scalars and arrays',
  'The tests do not project and back over the caps; each facet and hemisphere has its own branch.',
  ['magpie/coords/healpix.py'], [('healpix_ang2xy, healpix_xy2ang', 'magpie/coords/healpix.py')], note='real arithmetic; all angles')
P('P11', 'HEALPix neighbours are exactly the touching pixels',
  'The neighbours reported for a HEALPix pixel (as star index pairs) are distinct pixels of the map, none of them is the pixel itself, each shares a corner with it, and there are as many as touch it: eight, or seven or six where corners of facets meet.',
  'every pixel of each listed nside',
  'The tests do not touch the neighbours; the seams between polar facets and the wrap at x = 2 pi have their own branches.',
  ['magpie/pixel/healpix_index.py'], [('healpix_ijs_neighbours', 'magpie/pixel/healpix_index.py')], note='nside 1-4 (quick), also 8, 16 (thorough)')
P('P12', 'The drawn boundary of a HEALPix pixel is the diamond of that pixel',
  'The boundary points of a HEALPix pixel in the projected plane lie on the diamond of half width pi/(4 nside) around the pixel centre, evenly spaced along each side, from the left corner to the right corner (top or bottom half), or all the way round; reverse=True returns the same points backwards, and the requested number of points is returned.',
  'every pixel of each listed nside, even and odd numbers of points',
  'The tests do not call the boundary functions; pixels on the edge of a facet have their own branches.',
  ['magpie/pixel/healpix_boundary.py'], [('healpix_boundary, healpix_boundary_top, healpix_boundary_bot', 'magpie/pixel/healpix_boundary.py')], note='nside 1-3 (quick), also 8 (thorough); 4-10 or the default number of points')
P('P13', 'Square, arc, disc and box outlines are those of the requested shape',
  'The points of a square, arc, disc sector or 3D box lie on the requested outline with even steps and cover each side from end to end, whatever the limits and the center; a box is made of its twelve edges. With return_nearest, exactly the edges between corners visible from the given center remain.',
  'every limits and center, several numbers of points, the listed kinds of viewpoint',
  'No test calls these; a swapped limit is invisible for unit or centred shapes.',
  ['magpie/pixel/basic_shapes.py'], [('get_square, get_arc, get_disc, get_box', 'magpie/pixel/basic_shapes.py')], note='8-40 points (box 24-120); return_nearest for the unit cube and five viewpoint regions')
P('P14', 'Uniform Cartesian and polar grids place their cells evenly over the range',
  'For every box size, origin and number of cells, grid edges are evenly spaced from the origin to origin plus size, and cell centres lie halfway between; 2D, 3D and polar grids carry along each axis the 1D centres of that axis, with per-axis sizes, counts and origins, scalar or list, and a missing origin counts as 0. '
  'Edges reconstructed from centres are those centres lie between.',
  'every length, origin and range; small numbers of cells, unequal along the axes',
  'The tests check a few grids with equal cells along the axes.',
  ['magpie/grids/cartesian.py', 'magpie/grids/polar.py'], [('get_xedges, xedges2mid, xmid2edges, grid1d, grid2d, grid3d', 'magpie/grids/cartesian.py'), ('polargrid', 'magpie/grids/polar.py')],
  note='up to 8 cells in 1D, 3 per axis in 2D/3D; xmid2edges is a known finding')
P('P15', 'The equal-area polar grid tiles the disc with equal areas',
  'The equal-area polar grid has base_nphi (2 i + 1) pixels in ring i, centred in equal rings and equal angles; the number of pixels is base_nphi nrings squared and the pixel area times that number is the area of the disc, each ring being divided evenly.',
  'every disc radius; several numbers of rings and of pixels in the first ring',
  'The tests check one grid with default arguments.',
  ['magpie/grids/polar.py'], [('polarEA_grid, polarEA_npix, polarEA_area', 'magpie/grids/polar.py')], note='up to 5 rings')
P('P16', 'Random points are uniform over the region they are drawn from',
  'Random points in an interval, rectangle, box, polar ring segment, segment of the unit sphere or spherical shell segment lie inside the region and are uniform in its length, area or volume: the cumulative distribution values of their coordinates are independent uniform draws, and as many points as asked for are returned.',
  'every region within the bounds, every sequence of draws',
  'Tests can only sample a distribution; a wrong measure (uniform in radius instead of area) passes range tests.',
  ['magpie/randoms/cart.py', 'magpie/randoms/polar.py', 'magpie/randoms/usphere.py', 'magpie/randoms/sphere.py'],
  [('randoms_1d, randoms_2d, randoms_3d', 'magpie/randoms/cart.py'), ('randoms_polar', 'magpie/randoms/polar.py'), ('randoms_usphere', 'magpie/randoms/usphere.py'), ('randoms_sphere, randoms_sphere_r', 'magpie/randoms/sphere.py')],
  over=('inputs', 'configurations', 'histories'), note='2 points; numpy random_sample taken as an independent uniform source')
P('P17', 'Random points in a HEALPix pixel are uniform over that pixel',
  'Random points drawn in a HEALPix pixel lie inside the pixel and are uniform in area over it, wherever the pixel lies on the sphere (polar caps, belt, across phi = 0), and as many points as asked for are returned.',
  'every pixel of each listed nside, every sequence of draws',
  'Tests can only sample; pixels across phi = 0 and at the poles take other branches.',
  ['magpie/randoms/usphere.py'], [('_randoms_healpix_xy, randoms_healpix_pixel', 'magpie/randoms/usphere.py')],
  over=('inputs', 'configurations', 'histories'), note='plane positions for every pixel of nside 1-3 (quick), also 4, 5 (thorough); sphere directions for the belt pixels, the caps by composition with P10')

P('P18', 'Values drawn from a tabulated distribution follow that distribution',
  'pdf2cdf turns bin-centred probabilities into the bin edges, the cumulative sum from 0 to 1 and the probability density normalised to unit integral. Values drawn from a CDF or PDF are the inverse CDF (by the requested interpolation) at independent uniform draws, '
  'as many as asked for; a CDF which does not run from 0 to 1 is rejected, and inputs are left unchanged.',
  'every positive tabulated distribution of the stated sizes, every sequence of draws',
  'Tests can only sample; half a bin of shift or a lost bin is within sampling noise.',
  ['magpie/randoms/pdf.py'], [('pdf2cdf, randoms_cdf, randoms_pdf', 'magpie/randoms/pdf.py')], over=('inputs', 'configurations', 'histories'),
  note='up to 5 bins; linear interpolation, and the default cubic one through 4 points')
P('P19', 'Subsamples and shuffles draw each entry with the right chance and never twice',
  'Shuffling a sample returns each entry once, in an order fixed by the ranks of independent uniform draws, so that every order is equally likely; a random draw of a given size returns that many distinct entries by the same rule. '
  'A probabilistic draw keeps an entry exactly when its uniform draw lies below its probability; with a size it keeps that many entries, those with the smallest draw over probability. Sizes that are too large and non-positive probabilities are rejected; inputs are left unchanged.',
  'every sequence of draws, every probabilities; small samples',
  'Tests can only sample; a bias or a repeat in rare orders of the draws passes.',
  ['magpie/randoms/subsample.py'], [('shuffle, random_draw, random_prob_draw', 'magpie/randoms/subsample.py')], over=('inputs', 'configurations', 'histories'),
  note='samples of up to 4 entries; distinct draws')
P('P20', 'Stochastic integer and binary weights have the right mean',
  'A stochastic integer weight is the weight rounded up with a probability equal to its fractional part and rounded down otherwise, as decided by one uniform draw per weight; whole weights stay unchanged. '
  'A stochastic binary weight is the same limited to at most 1. Scalars and arrays agree, and inputs are left unchanged.',
  'every weight and every draw',
  'Tests can only sample a mean; swapped rounding directions or a shared draw survive for weights near one half.',
  ['magpie/randoms/subsample.py'], [('stochastic_integer_weights, stochastic_binary_weights', 'magpie/randoms/subsample.py')], over=('inputs', 'configurations', 'histories'),
  note='one or two weights in [-3, 5] (binary: [0, 4])')
P('P21', 'Dense remap of a box onto a polar grid is the mean over fine polar cells',
  'The dense-grid Box2Ring remap gives in every polar cell the area-weighted mean, over the rebin_r x rebin_p fine cells it is divided into, of the map pixel that holds the centre of the fine cell (rotated by phi_shift about the center); fine cells outside the box count as 0. '
  'With weights it is the remapped product over the remapped weights, NaN where no weight falls, and the in-bound mask is the fraction of the cell inside the box. Inputs are left unchanged.',
  'every box, center, radial and angular range and shift within the bounds, every field and weight; small grids with unequal axes',
  'The tests do not touch the remap classes; swapped axes or rebin factors vanish on square configurations.',
  ['magpie/densegrid/box2ring.py'], [('Box2Ring.setup_box, setup_polar, remap, get_mask_in_bound', 'magpie/densegrid/box2ring.py')], note='box up to 4x4, polar grid up to 3x2 or 2x3, rebin factors up to 3; fine-cell centres off the pixel borders')
P('P22', 'Monte Carlo remap of a box onto a polar grid is the mean over its random points',
  'The Monte Carlo Box2Ring remap gives in every polar cell the mean (or weighted mean) of the map pixels that hold the random points of that cell, which are uniform in the area of the cell, rotated by phi_shift about the center; points outside the box are left out, and a cell without points in the box is NaN. '
  'Linear and logarithmic radial edges run from the smallest to the largest radius as requested. Inputs are left unchanged.',
  'every box, center, range and shift within the bounds, every field and weight, listed draws',
  'The tests do not touch the Monte Carlo classes; results are random, so only gross errors would show.',
  ['magpie/montecarlo/box2ring.py'], [('Box2Ring.setup_polar_lin, setup_polar_log, get_weights, remap', 'magpie/montecarlo/box2ring.py')], over=('inputs', 'configurations', 'histories'),
  note='2-3 points per cell, most draws at fixed values with one free at a time; up to 3x2 or 2x3 cells')

P('P23', 'Dense remap of a cube onto HEALPix shells is the mean over fine shell cells',
  'The dense-grid Cube2Shell remap gives in every HEALPix pixel of every shell the volume-weighted mean, over the fine shells and child pixels it is divided into, of the cube cell that holds the centre of the fine cell; fine cells outside the cube count as 0, or hold the cell of the repeated cube inside the periodic copies asked for. '
  'The cube is read in the layout of its own x3d, y3d, z3d grids, and the input is left unchanged.',
  'every cube, center, radial range within the bounds, every field; listed grid sizes, rebin factors and periodic copies',
  'The tests do not touch the remap classes; swapped axes vanish on cubes of equal sides, and periodic copies matter only near the faces.',
  ['magpie/densegrid/cube2shell.py'], [('Cube2Shell.setup_cube, setup_polar, remap', 'magpie/densegrid/cube2shell.py')],
  note='cubes up to 3x4x2, up to 3 shells, nside 1-2, rebin factors up to 3; fine-cell centres off the cell borders')
P('P24', 'Monte Carlo remap of a cube onto HEALPix shells is the mean over random points',
  'The Monte Carlo Cube2Shell remap gives in every HEALPix pixel of every shell the mean (or weighted mean) of the cube cells that hold the random points of that pixel and shell; points outside the cube are left out, and a pixel without points in the cube is UNSEEN. '
  'Linear and logarithmic shell edges run from the smallest to the largest radius as requested. Field and weights are left unchanged.',
  'every cube, center and radial range within the bounds, every field and weight, listed draws',
  'The tests do not touch the Monte Carlo classes; results are random, so only gross errors would show.',
  ['magpie/montecarlo/cube2shell.py'], [('Cube2Shell.setup_polar_lin, setup_polar_log, get_weights, remap', 'magpie/montecarlo/cube2shell.py')],
  note='cubes up to 3x2x4, 1-2 shells, nside 1, 2-3 points per cell at fixed values of the draws')

P('P25', 'Radial and cumulative radial profiles are the sums they define',
  'polar2radial gives in every radial bin the mean over the angle of the unmasked cells, weighted by the given weights (equal weights when none are given) and NaN where nothing has weight; with errors it also gives the error of that mean for independent pixels, in which each cell counts as its area over the pixel area. '
  'cumulative_radial gives at every radial edge the integral of a radial profile over the disc inside it, pi times the sum of (r2^2 - r1^2) f, starting at 0, with independent errors added in quadrature. get_polar_area2d gives the area of every polar cell and get_pixarea the area of a pixel. Inputs are left unchanged.',
  'every field, error, weight and set of edges within the bounds',
  'The tests do not touch the radial profiles; wrong axes or powers of the area cancel on uniform data.',
  ['magpie/polar/polar2radial.py', 'magpie/polar/radial.py'], [('polar2radial, get_polar_area2d, get_pixarea and the radial helpers', 'magpie/polar/polar2radial.py')],
  note='up to 3x3 cells; uniform angular widths')
P('P26', 'Box2Ring radial profiles use the polar cells inside the box only',
  'polar2radial of the dense and Monte Carlo Box2Ring gives the radial profile of the polar cells that lie inside the box: cells partly (dense) or wholly (Monte Carlo) outside carry no weight, whatever value the field has there. Field, errors and weights given by the caller stay unchanged.',
  'every box, center and radial range within the bounds, every field, error and weight',
  'The tests do not touch the remap classes; the rule matters only for polar grids that reach over the border of the box.',
  ['magpie/densegrid/box2ring.py', 'magpie/montecarlo/box2ring.py'], [('Box2Ring.polar2radial, get_mask_in_bound', 'magpie/densegrid/box2ring.py')], over=('inputs', 'configurations', 'histories'),
  note='box up to 3x3, polar grid up to 3x2 or 2x3')
P('P27', 'Remap of a HEALPix map onto a polar cap is the mean over the cap cells',
  'The Heal2Ring remap gives in every (beta, alpha) cell of a polar cap around the center the area-weighted mean of the map at the centres of its rebin_alpha x rebin_beta fine cells (dense grid), or the mean over its random points, which are uniform in area (Monte Carlo): the point alpha away from the center at position angle beta plus beta_shift. '
  'With weights it is the weighted mean. Radial profiles weight cells by nothing but the weights given and use spherical cell areas for errors.',
  'every map and weight, every center, cap range and shift within the bounds; small grids with unequal axes; listed draws',
  'The tests do not touch the remap classes; swapped axes vanish on square configurations, and rotations look right near the pole.',
  ['magpie/densegrid/heal2ring.py', 'magpie/montecarlo/heal2ring.py'], [('Heal2Ring.setup_polar_cap, get_weights, remap, polar2radial', 'magpie/densegrid/heal2ring.py')], over=('inputs', 'configurations', 'histories'),
  note='nside 256, mostly one free angle or length per configuration, other angles at multiples of pi/12; up to 3x2 cells, rebin factors up to 3; 2-3 Monte Carlo points per cell; center at most 11/12 pi from the pole')
P('P28', 'Remap of a HEALPix map onto a longitude-latitude box is the mean over its cells',
  'The Heal2Polar remap gives in every (y, x) cell of a longitude-latitude box, spun by alpha and carried from (0, pi/2) to the center, the area-weighted mean of the map at the centres of its rebin_x x rebin_y fine cells (dense grid), or the mean over its random points, which are uniform in area (Monte Carlo). '
  'With weights it is the weighted mean. An omitted y_length is x_length, at most pi, and an omitted y_grid is x_grid.',
  'every map and weight, every center, box length and spin within the bounds; small grids with unequal axes; listed draws',
  'The tests do not touch the remap classes; swapped axes vanish on square configurations, and area weights matter only away from the equator.',
  ['magpie/densegrid/heal2polar.py', 'magpie/montecarlo/heal2polar.py'], [('Heal2Polar.setup_box, get_weights, remap', 'magpie/densegrid/heal2polar.py')], over=('inputs', 'configurations', 'histories'),
  note='nside 256, one free angle or length per configuration, other angles at multiples of pi/12; up to 3x2 or 2x3 cells, rebin factors up to 3; 2-3 Monte Carlo points per cell')
P('P29', 'The orthographic view shows the map at the directions its image points see',
  'Heal2Ortho gives in every image cell whose centre lies on the disc the mean (or weighted mean) of the map over those of its fine cells that lie on the sphere, seen from the center with north up, and NaN off the disc. '
  'transform takes a direction to the image point that shows it, scaled by the radius, and to NaN on the far side.',
  'every map and weight, every center, radius and image size within the bounds; every direction',
  'The tests do not touch the class; an unequal number of cells or rebin factors, a radius other than 1 or cells across the limb are needed to see errors.',
  ['magpie/densegrid/heal2ortho.py'], [('Heal2Ortho.setup_box, remap, transform', 'magpie/densegrid/heal2ortho.py')],
  note='nside 256, one free quantity per configuration; up to 3x2 or 2x3 cells, rebin factors up to 3; directions off the limb')
P('P30', 'The perspective view and its reverse follow the pinhole camera',
  'PointOfView.transform gives the image position of a point as the display distance times its sideways and upward offsets over its forward offset from the camera, in the camera frame that looks at the given point with the north pole up, turned by the spin, and its distance. '
  'reverse takes an image position and distance back to the point in front of the camera, so a point in front of the camera survives both. Scalars and arrays agree; inputs stay unchanged.',
  'every camera position, display distance and point within the bounds; listed viewing directions and spins, or free ones',
  'The tests do not touch the class; wrong handedness or spin sense shows only off the symmetry axes.',
  ['magpie/densegrid/pointofview.py'], [('PointOfView.setup, transform, reverse', 'magpie/densegrid/pointofview.py')],
  note='coordinates in [-9, 9], one to three free per configuration')
P('P31', 'An object that is set up again gives what a new object gives',
  'After any of the listed sequences of set-ups, weight calculations, remaps, profiles and clean, a remap object gives the same remaps, weighted remaps and profiles as a new object given only the last set-up and the same random draws. Remapping twice gives the same result, and fields, weights and centers passed in stay unchanged.',
  'every field and weight, listed sequences of set-ups and listed draws; one free geometry parameter in most',
  'The tests never reuse an object; caches left from an earlier set-up give plausible but wrong results.',
  ['magpie/densegrid/box2ring.py', 'magpie/montecarlo/box2ring.py', 'magpie/densegrid/heal2ring.py', 'magpie/montecarlo/cube2shell.py'],
  [('setup_*, get_weights, remap, polar2radial, clean of every class', 'magpie/montecarlo/box2ring.py')], over=('inputs', 'configurations', 'histories'),
  note='two different small set-ups per class, in sequences AB, BA, ABA, BAB, AA, A-clean-B, and new weights')

P('P32', 'Rotating a polar grid turns the field and nothing else',
  'rotate_polar turns angles by an angle a in (0, 2 pi) and returns them in [0, 2 pi), leaving its input as it is. rotate_polar_grid and the rotate_polar method of the ring remaps turn a field on a full-circle grid by any such angle: with s = (k + w) cells and 0 <= w < 1, row i becomes (1 - w) times row i + k plus w times row i + k + 1, rows counted round the circle. '
  'So whole-cell turns permute rows, the sum over each ring is kept, and inputs stay unchanged. On a part of the circle this holds for the rows whose two source rows lie in the grid. Setting a ring remap up with phi_shift (or beta_shift) of whole rows gives what rotating the unshifted remap gives.',
  'every field and angle within the bounds; listed grid sizes and shapes',
  'The tests never rotate; a wrong sense or a lost row at the seam keeps ring sums plausible.',
  ['magpie/coords/polar.py', 'magpie/densegrid/box2ring.py', 'magpie/densegrid/heal2ring.py', 'magpie/montecarlo/box2ring.py', 'magpie/montecarlo/heal2ring.py'], [('rotate_polar, rotate_polar_grid', 'magpie/coords/polar.py'), ('rotate_polar', 'magpie/densegrid/box2ring.py')],
  note='up to 24 rows and 3 columns for the grid functions, small remaps for the classes')
P('P33', 'Spherical areas add up and longitude-latitude is co-latitude turned round',
  'usphere_area gives (phi_max - phi_min) (cos theta_min - cos theta_max); the areas of the parts of a patch add up to its area and the whole sphere has 4 pi. sphere2lonlat and lonlat2sphere keep phi and turn theta into pi/2 - theta, so they undo each other and keep their inputs.',
  'every patch and every direction',
  'Holds for every patch; the tests sample a few points.',
  ['magpie/coords/usphere_util.py'], [('usphere_area', 'magpie/coords/usphere_util.py')],
  note='no bounds on the angles other than their ranges')
P('P34', 'Arguments out of range are refused and the ends of the range accepted',
  'The set-up methods of the remap classes (box, polar grid, polar cap, cube, map), the field or map passed to remap, get_weights with a Monte Carlo size above one, polar2radial, rotate_polar, usphere_rotate/spin/shift, usphere_area and rebin_1d raise for every argument outside its documented range or of the wrong shape, and accept the ends of the range.',
  'every out-of-range value within the bounds, listed wrong shapes',
  'The tests never pass a wrong argument; a check dropped or off at its border lets a remap run on nonsense silently.',
  ['magpie/densegrid/box2ring.py', 'magpie/montecarlo/cube2shell.py', 'magpie/coords/usphere_util.py', 'magpie/one_d/one_d.py'], [('setup_*, remap, polar2radial', 'magpie/densegrid/box2ring.py')],
  note='one value out of range at a time, up to 1000 beyond the border')
P('P35', 'Progress output is right and changes nothing',
  'progress_bar prints one bar of fixed length whose filled part is the share done to within one step, with the percentage and the index given, and ends with a full bar, 100 % and a new line at the last call only. With verbose on, off or left out the weights and remaps are the same, and with verbose off nothing is printed.',
  'every index for lengths in the bounds; every field for the remaps',
  'Holds for every length and index; the tests never turn progress output on.',
  ['magpie/utils/progress.py', 'magpie/montecarlo/box2ring.py', 'magpie/montecarlo/heal2polar.py'], [('progress_bar', 'magpie/utils/progress.py')],
  note='lengths up to those listed in the evidence, small remaps')

P('P36', 'The remap objects show the grids they were set up with',
  'After set-up every remap class holds evenly spaced edges from the lower to the upper end given (logarithmic radial edges after setup_polar_log, with 0 first under addzero), the midpoint of each cell, the cell widths, and grids of the midpoints in the documented axis order (y rows by x columns, phi or beta rows by r or alpha columns, y by x by z in 3D), together with nside and center as given; setting up the second system leaves the first as it was. '
  'The orthographic view also holds the height sqrt(R^2 - x^2 - y^2) of every cell on the sphere of radius R, and marks the others as not on it.',
  'every range and length within the bounds; listed grid sizes',
  'Users plot and integrate with these arrays; the tests look at none of them, and a midpoint off centre leaves the weights as they are.',
  ['magpie/densegrid/box2ring.py', 'magpie/densegrid/cube2shell.py', 'magpie/densegrid/heal2ring.py', 'magpie/densegrid/heal2ortho.py', 'magpie/montecarlo/box2ring.py', 'magpie/montecarlo/cube2shell.py', 'magpie/montecarlo/heal2polar.py'], [('setup_box, setup_polar, setup_polar_lin, setup_polar_log, setup_polar_cap', 'magpie/densegrid/box2ring.py')],
  note='up to 12x9 box cells, 16x9 polar cells, 6x5x4 cubes; two doublings per logarithmic grid cell fixed, its start free')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('tech', 'note', 'na')}) + '\n')
    m = dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5, numpy"', checks=[], not_applicable=[],
             notes='All checks: python3-vt -m symx.run <id>; exit 1 with a VIOLATION line only for a counterexample replayed on the real code. '
                   'INCONCLUSIVE lines name configurations or obligations left undecided in this run.')
    for p in PROPS:
        if p['na']:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        else:
            m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt -m symx.run %s' % p['id'],
                                    thorough_cmd='python3-vt -m symx.run %s --tier thorough' % p['id'],
                                    technique=p['tech'], level='model_checking', level_note=p['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
