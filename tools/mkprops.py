#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=('inputs',), observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

C = 'include/vif/core/'; U = 'include/vif/utility/bits/'; M = 'include/vif/math/'
p('V01', 'An array always holds exactly as many elements as its dimensions say',
  'After every operation that creates or reshapes an array (construction from dimensions, list or another array, copy, move, assignment, resize, clear, push back, flatten, reform, replicate, append, prepend, remove), the number of stored elements equals the product of the reported dimensions. The operation also gives the array the documented dimensions and keeps, in order, the elements it is documented to keep, the others being value-initialised. Reshaping to an incompatible number of elements raises an error.',
  'every element type, every set of extents including zero, every prior content, and every sequence of such operations (each one preserves the relation)',
  'The unit tests construct a few arrays of fixed small size; the relation has to survive every operation on arrays of any extent, including empty ones.',
  [C+'vec.hpp', U+'generic-dims.hpp', U+'generic-rearrange.hpp'],
  [('vec constructors, operator=, resize, clear, push_back', C+'vec.hpp'), ('flatten, reform', U+'generic-dims.hpp')], over=('inputs', 'histories'),
  state=[('dims', 'extents of the array', C+'vec.hpp'), ('data', 'row-major elements', C+'vec.hpp')])
p('V02', 'An index reaches exactly the element it names, or raises an error',
  'Reading or writing one element through a flat index, or through one index per dimension, reaches the element at that row-major position and no other; a negative index -k with k between 1 and the extent names the k-th element from the end. A non-negative index not smaller than the extent raises an error, and no index of any value or integer type ever reads or writes outside the array.',
  'every array extent, every index value and integer type, one to three dimensions',
  'Tests index small arrays with int literals; extents and indices range over all integers, and the failures (wrap-around of narrow types, off-by-one at the bound) sit at values no test samples.',
  [C+'bits/access.hpp', C+'vec.hpp'], [('to_idx, to_idx_, pitch', C+'bits/access.hpp'), ('operator[], operator()', C+'vec.hpp')])
p('V03', 'A view designates exactly the elements that were selected',
  'Selecting with a list of indices, a range or a whole dimension yields a view with one element per selected position, in the requested order and with the requested dimensions, each designating the array element at that position; any position outside the array raises an error. Writing through the view changes exactly the designated elements of the array, leaves every other element untouched, and reading an array through a view, converting it to an array, gives those elements\' values.',
  'every array, every list of indices (any length, order, duplicates, negative), every range',
  'Tests take a handful of views of arrays of about ten elements; the guarantee ranges over all index lists, repeated and out-of-range indices included.',
  [C+'bits/access.hpp', C+'vec.hpp', C+'range.hpp'], [('vec_access helpers for index lists, ranges and placeholders', C+'bits/access.hpp'), ('view class and its assignment', C+'vec.hpp')])
p('V04', 'Assignments whose source aliases the destination behave as if copied first',
  'Assigning to an array or to a view from an expression that reads the same array (a view of it, itself, or one of its own elements as a scalar operand of a compound assignment) gives the result that would be obtained if the right-hand side had first been copied to a separate array. No element of the source is read after it has been overwritten, nor after its storage was released.',
  'every array, every pair of index lists, overlapping in any way',
  'Tests check one or two overlapping copies; whether a stale or overwritten element is read depends on how the two index lists overlap.',
  [C+'vec.hpp'], [('view_same, assignment of views', C+'vec.hpp'), ('compound assignment operators', C+'vec.hpp')])
p('V05', 'Element-wise operators act independently on every element',
  'Applying an arithmetic, comparison, logical or unary operator, or a vectorised function, to arrays of equal dimensions (or to an array and a scalar) yields an array of the same dimensions whose element at each position is the operator applied to the operands\' elements at that position, and leaves the operands unchanged; the compound forms do the same in place. Arrays of different dimensions raise an error and leave both unchanged.',
  'every array extent, every element value (integer overflow aside, floating-point results taken as the machine operation), temporaries, named arrays and views as operands',
  'Tests evaluate a few expressions on short arrays; every operator has several overloads (temporary, view, scalar on either side) that must all agree.',
  [C+'bits/operators.hpp', C+'bits/vectorize.hpp', C+'vec.hpp'], [('VIF operators', C+'bits/operators.hpp'), ('VIF_VECTORIZE', C+'bits/vectorize.hpp')])
p('V06', 'where() and its relatives return exactly the matching positions',
  'The selection functions return, for an array of booleans, the flat positions of all true elements in increasing order, each exactly once; the first/last variants return the smallest/largest such position, or the special not-found value when there is none. The complement of a list of positions is the increasing list of all the other positions of the array.',
  'every boolean array of any size and dimension, every list of distinct valid positions',
  'Tests use arrays of four to six elements; an early exit or a skipped position for some content or length is not visible there.',
  [U+'generic-find.hpp'], [('where, where_first, where_last, complement', U+'generic-find.hpp')])
p('V07', 'Sorting is a stable ordered permutation and binary search brackets the value',
  'Sorting returns a permutation of the positions (or of the elements, in place) that is non-decreasing with not-a-number values placed last, equal elements keeping their original order; the sortedness test is true exactly when no element is smaller than the one before it. On a sorted array the bound functions return the last position not above the value, the first position strictly above it, the enclosing pair, and the first and last positions equal to it, with the not-found value where there is none.',
  'every array (duplicates, empty, one element, not-a-number values for sorting), every searched value',
  'Tests sort a short array once; order, stability and the bracketing at duplicates, ends and empty input are statements about all contents.',
  [U+'generic-rearrange.hpp', U+'generic-find.hpp', C+'vec.hpp'], [('sort, inplace_sort, is_sorted', U+'generic-rearrange.hpp'), ('lower_bound, upper_bound, bounds, equal_range', U+'generic-find.hpp')])
p('V08', 'Unique, membership, matching and set operations agree with their definition',
  'The unique functions return exactly one representative for each distinct value, namely its first occurrence, in increasing value order; the membership test is true exactly for the values present in the reference list; matching two lists returns, in the order of the first list, the position of every element that has an equal in the second together with the position of the first such equal. Set intersection and union return, in increasing order and whatever the order of the inputs, every value as many times as the smaller, respectively the larger, of its numbers of occurrences in the two lists.',
  'every pair of arrays, below and above the size at which the implementation switches algorithm',
  'Tests use at most ten elements and so never enter the large-array algorithm; the results must agree with the definition for all sizes and contents.',
  [U+'generic-find.hpp'], [('unique_ids, unique_values, is_any_of, match, set_intersection, set_union', U+'generic-find.hpp')])
p('V09', 'Rearranging functions move every element to its documented place',
  'Reversing, circular shifting, transposing, replicating, appending, prepending and removing put every element of the input at its documented position in the output, with the documented dimensions, and neither lose, duplicate nor alter any other element. Removing an invalid or repeated position, and joining arrays whose other dimensions differ, raise an error.',
  'every array content and extent including empty, every shift amount, every list of removed positions',
  'Tests rearrange a few short arrays; the element-to-position relation must hold for all extents, shifts and position lists.',
  [U+'generic-rearrange.hpp'], [('reverse, inplace_shift, transpose, replicate, append, prepend, inplace_remove', U+'generic-rearrange.hpp')])
p('V10', 'Flat and multi-dimensional positions convert back and forth exactly',
  'Converting a flat position to one position per dimension and back is the identity for every valid position, and both agree with row-major element order; each coordinate is below its extent. Repeatedly incrementing a coordinate list visits every combination exactly once, in row-major order, before returning to all zeros.',
  'all extents (up to three dimensions for conversions, any number of coordinates for the increment), all positions',
  'Tests convert a handful of positions of one small array.',
  [U+'generic-indices.hpp', C+'bits/access.hpp'], [('mult_ids, flat_id, increment_index_list', U+'generic-indices.hpp')])
p('V11', 'Reductions ignore not-a-number values and reduce exactly the requested axis',
  'The minimum and maximum (and their positions) are those of the elements that are not not-a-number values, the first such position on ties (minmax reports the last position of the maximum, as std::minmax_element does); medians and percentiles are the elements of the corresponding rank among those values; counting returns the number of true elements; element-wise minima and maxima act position by position. Reducing along a dimension applies the reduction, for every combination of the other coordinates, to exactly the elements along that dimension in order, and yields an array with that dimension removed.',
  'every array content and extent, every dimension of two- and three-dimensional arrays',
  'Tests reduce one or two small arrays; ties, not-a-number placement and the index arithmetic for each axis are universally quantified.',
  [M+'reduce.hpp'], [('minmax_, min, max, min_id, max_id, count, reduce, run_dim', M+'reduce.hpp')])
p('V12', 'Histograms count every datum exactly once, in the bin that contains it',
  'Counting data into half-open bins [low, high) yields, for each bin, exactly the number (or the total weight, or the set of positions) of the data inside it, with data outside all bins and not-a-number values ignored; for contiguous bins no datum is counted twice. Bin construction gives contiguous bins that cover the requested interval, membership tests agree with the half-open bins, and a cumulative sum holds at each position the sum of all the elements up to it (or from it to the end).',
  'every data set, all ordered disjoint bins, data exactly on bin edges',
  'Tests count a few values away from edges; boundary values, out-of-range data and empty bins are the interesting inputs.',
  [M+'histogram.hpp'], [('histogram, histogram_impl, in_bin, make_bins', M+'histogram.hpp')])
p('V13', 'String functions satisfy their textual definition for all inputs',
  'Finding returns the first occurrence or the not-found value; prefix and suffix tests, trimming, erasing, keeping, aligning, case conversion and replacement return exactly the text their definition prescribes and terminate on every input. Splitting on a non-empty separator and joining the pieces with it gives back the original text, with no separator left inside any piece; the vectorised forms act on each string independently.',
  'every string, every pattern including empty ones where the function accepts them',
  'Tests apply each function to two or three literals; empty strings, patterns at the ends, repeated or overlapping patterns are not covered.',
  [U+'string-base.hpp', U+'string-find-replace.hpp', U+'string-split.hpp', U+'string-format.hpp'], [('find, replace, trim, begins_with, ends_with, split, cut, align_*', U+'string-find-replace.hpp')])
p('V14', 'Path functions decompose and recompose file names consistently',
  'For every path the directory part is the text up to the last separator before the name ("./" if there is none) and the base name is the text after it, trailing separators not counting; the base name contains no separator (except for the root) and the directory part ends with one; removing the extension and appending it gives back the path. Making a directory name trims blanks and adds one trailing separator when there is none, and none to the empty path.',
  'every path string, including trailing and repeated separators, hidden files and dots in directory names',
  'Tests check three typical paths.',
  ['include/vif/io/filesystem.hpp'], [('get_basename, get_directory, directorize, remove_extension, get_extension, split_extension', 'include/vif/io/filesystem.hpp')])
p('V15', 'Pixel-exact image operations move every pixel to its documented place',
  'Enlarging, shrinking, flipping, integer translation, circular shifting, recentring and extracting a region of an image put every pixel at its documented position, fill exactly the pixels that have no source with the given default, and produce an image of the documented size. No pixel outside the image is read, for any offset or region.',
  'every image size including empty, every margin, offset and region, including those partly or entirely outside the image',
  'Tests cover one or two offsets on a small image; partially and fully outside regions decide the clipping arithmetic.',
  ['include/vif/astro/image.hpp'], [('enlarge, shrink, subregion, flip_x, flip_y, inplace_shift, inplace_translate_integer, recenter', 'include/vif/astro/image.hpp')])
p('V16', 'A parallel loop runs its body exactly once for every index of its range',
  'Executing a parallel loop over a range calls the body exactly once for every index from the first (included) to the last (excluded) and for no other index, for any number of workers and any chunk size. This holds for ranges that are empty or shorter than the number of workers.',
  'every range, every number of workers, every chunk size (the partition into chunks is what is decided; thread scheduling itself is not)',
  'Tests run one range with one setting; the partition arithmetic depends on all three numbers.',
  [U+'thread-parallel-for.hpp'], [('parallel_for::execute', U+'thread-parallel-for.hpp')])
p('V17', 'Interpolation and integration use exactly the tabulated segments involved',
  'Linear interpolation at a position between two consecutive tabulated positions is computed from exactly those two points, and returns the tabulated value at each tabulated position; outside the table it extrapolates from the two nearest points. Uncertainties, bilinear interpolation of maps and cubic splines follow the same rule of locating the containing segment or cell; each requested position is treated independently of the others and of their order. The integral of a tabulated or binned function over a range is the sum of the contributions of exactly the segments or bins (or parts of them) inside that range, and cumulative sums and integrals give that value at every point. Tables that are too short, of different sizes, or that do not cover the range are reported as errors, never read out of bounds.',
  'every strictly increasing table of at least two points, every requested position and range',
  'Tests interpolate one table at a few positions; which segment is chosen at nodes and beyond the ends is a statement about all positions.',
  [M+'interpolate.hpp', M+'reduce.hpp'], [('interpolate, interpolate_3spline, bilinear, bilinear_strict, rebin', M+'interpolate.hpp'), ('integrate, integrate_hinted, cumul', M+'reduce.hpp')])
# ---- listed, not claimed
p('V30', 'Numbers survive conversion to text and back',
  'Converting a number to text and parsing that text yields the same number, and text that does not denote a number of the requested type is rejected rather than silently misread.',
  'every value of every numeric type, every text', 'Tests convert a few literals.',
  [C+'string_conversion.hpp'], [('to_string, from_string', C+'string_conversion.hpp')])
p('V31', 'Tables written to text or FITS files read back identically',
  'Writing columns to an ASCII or FITS table and reading the file returns the same columns, with the same names, types, dimensions and values (to the written precision).',
  'all column types, values and lengths', 'Tests round-trip one file.',
  ['include/vif/io/ascii.hpp', 'include/vif/io/fits.hpp'], [('ascii::read_table, ascii::write_table, fits::read_table', 'include/vif/io/ascii.hpp')])
p('V32', 'Catalogue cross-matching returns the true nearest neighbours',
  'Cross-matching two catalogues of sky positions returns for each source the nearest sources of the other catalogue by angular distance, the accelerated search giving the same answer as the exhaustive one.',
  'all catalogues', 'Tests match one random catalogue.',
  ['include/vif/astro/qxmatch.hpp'], [('qxmatch', 'include/vif/astro/qxmatch.hpp')])
p('V33', 'Worker threads process every queued item exactly once under any schedule',
  'Items pushed to a thread-safe queue or worker pool are each consumed exactly once, none is lost when the pool is joined or destroyed, and no thread waits for ever.',
  'all interleavings of producers, consumers and shutdown', 'Tests observe a few schedules.',
  [U+'thread-queue.hpp', U+'thread-worker-pool.hpp'], [('lock_free_queue, worker_pool', U+'thread-queue.hpp')], over=('schedules',))
p('V34', 'Matrix inversion and linear fits solve the stated system',
  'Inverting a matrix and solving linear least-squares problems return a result that satisfies the defining equation to rounding accuracy, or report failure.',
  'all well-conditioned inputs', 'Tests solve a few systems.',
  [M+'bits/matrix-functions.hpp', M+'linfit.hpp'], [('matrix::invert, linfit', M+'linfit.hpp')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
