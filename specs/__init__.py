"""Contracts of the functions of /repo, by area, and which of them make up each property."""
MODULES = ['fill', 'flow', 'label', 'chain', 'rain', 'approx', 'net', 'speed', 'water', 'level', 'hyps', 'stream', 'spots', 'cli', 'rio']

# property -> [(contract, [functions verified against it])]; '-' is a lemma over contracts
PROPS = {
    'C01': ['fill.Sweep', 'fill.Fill'],
    'C02': ['fill.SweepNF', 'fill.FillNF', 'fill.FpFacts', 'fill.SafeDrops'],
    'C03': ['flow.D8', 'flow.Steepest', 'flow.Outward', 'flow.FlowDir', 'flow.Delta', 'fill.FpFacts'],
    'C04': ['fill.SweepNF', 'flow.D8', 'fill.FillNF', 'fill.FpFacts', 'fill.SafeDrops', 'flow.FlowDir', 'flow.Steepest', 'flow.Outward', 'chain.Dem', 'flow.Leaves', 'flow.Trace', 'flow.Delta'],
    'C05': ['flow.TraceAcc', 'flow.Accumulate'],
    'C06': ['flow.Shed@i4', 'flow.Shed@i8', 'flow.Shed@u1', 'flow.Sheds@i4', 'flow.Sheds@u1', 'flow.Edges', 'flow.Exits'],
    'C07': ['label.Stats@f4,i4', 'label.Stats@f8,i4', 'label.Stats@f8,i8', 'label.Stats@u1,i4', 'label.MinIndex@f8,i4', 'label.MinIndex@f4,i8',
            'label.MaxIndex@f8,i8', 'label.Extreme', 'label.Data@f4,i4', 'label.Data@f8,i8', 'label.SetValues@array', 'label.SetValues@list', 'label.Keep', 'label.Count'],
    'C08': ['spots.Components@f4', 'spots.Components@bool', 'spots.Filter', 'spots.Tool@plain,accum', 'spots.Tool@filter,accum', 'label.Keep', 'label.Stats@f4,i4'],
    'C09': ['spots.Assemble', 'spots.Tool@plain,accum', 'spots.Tool@filter,accum', 'spots.Tool@plain,dem', 'label.MaxIndex@f8,i4', 'label.MinIndex@f8,i4', 'label.Extreme', 'label.Stats@f4,i4', 'label.Count',
            'flow.Sheds@i4', 'fill.SafeDrops', 'fill.FillNF'],
    'C10': ['net.Next', 'net.Network@cells', 'net.Network@features'],
    'C11': ['net.Prune', 'net.Next', 'net.Network@cells'],
    'C12': ['stream.Process@nodes', 'stream.Process@streams'],
    'C13': ['rain.Simple', 'rain.Raster', 'label.Stats@f4,i4', 'label.Stats@f8,i4'],
    'C14': ['water.Event', 'water.Final', 'water.Conserve'],
    'C15': ['hyps.Bins', 'hyps.Stats', 'hyps.Read', 'hyps.Sum', 'label.Stats@f4,i4', 'label.Data@f4,i4'],
    'C16': ['level.Levels', 'level.Curve'],
    'C17': ['approx.ToList', 'approx.Memory', 'approx.Files@both', 'approx.Files@labels', 'approx.Files@depths', 'label.SetValues@array', 'label.SetValues@list'],
    'C18': ['speed.Toggle', 'fill.SweepNF', 'fill.FillNF', 'fill.Sweep', 'fill.Fill', 'flow.D8', 'flow.TraceAcc', 'flow.Accumulate', 'flow.Shed@i4', 'flow.Shed@i8', 'flow.Shed@u1', 'label.Stats@f4,i4', 'label.Stats@f8,i8',
            'label.MinIndex@f8,i4', 'label.MinIndex@f4,i8', 'label.Data@f4,i4', 'label.Data@f8,i8'],
    'C19': ['rio.Write@' + k for k in ('f8', 'f4', 'i4', 'u4', 'i2', 'u2', 'u1', 'i1', 'i8', 'u8', 'bool')] +
           ['rio.Read@%s,%s' % (k, n) for k in ('f8', 'f4', 'i4', 'u4', 'i2', 'u2', 'u1') for n in ('none', 'number', 'nan')],
    'C20': ['chain.Dem@accum', 'chain.Dem@none', 'cli.Filled', 'cli.Depths', 'cli.FlowDir', 'cli.Accum', 'cli.Bspots@filter', 'cli.Bspots@all', 'cli.NoFilter', 'cli.Wsheds', 'cli.Pourpts@accum', 'cli.Pourpts@dem',
            'cli.Polys', 'cli.Network', 'cli.Volumes@mm', 'cli.Volumes@pr', 'cli.FinalState', 'cli.Hyps', 'cli.Levels', 'cli.Extents@both', 'cli.Extents@depths', 'cli.Extents@bluespots',
            'cli.Complete@refused'] + ['cli.Complete@' + ','.join(v) for v in (['dem'], ['accum'], ['filter'], ['vector'], ['accum', 'filter'], ['accum', 'vector'], ['filter', 'vector'], ['accum', 'filter', 'vector'])] +
           ['fill.Fill', 'fill.FillNF', 'fill.SafeDrops', 'fill.FpFacts', 'flow.FlowDir', 'flow.Steepest', 'flow.Outward', 'flow.Delta', 'flow.Accumulate'],
}

TRUSTED = [
    'vf/: front end (Python ast, Cython parser), VC generator and library models (numpy, Python built-ins)',
    'z3 5.3.2, z3 4.8.12, cvc5 1.1.2',
    'Cython, the C compiler and CPython compile and run the sources as written',
]
ASSUMPTIONS = [
    'termination is not proved (partial correctness)',
    'signed C integers do not overflow; unsigned wrap-around is modelled',
    'array dimensions below 2**31-2',
    'NaN excluded unless stated',
]
INFO = {
    'C01': {'assumptions': ['existence of the spill elevation with a shortest attaining path (finite minimum over paths)', 'float comparisons and copies are exact; values never exceed float infinity']},
    'C02': {'assumptions': ['existence of the least surface with a well-founded attaining path', 'float addition rounds monotonically, keeps the sign and never passes infinity']},
    'C04': {'assumptions': ['existence of the least surface with a well-founded attaining path of at most 2**40 cells', 'float64 addition rounds monotonically with relative error at most 2**-53 (absolute 2**-1075)',
                            'a sequence of cells of a finite raster without repetition is finite (so the path, which repeats no cell, ends)', 'a raster transform with square cells between 2**-900 and infinity is given']},
    'C18': {'assumptions': ['existence of the least surface with a well-founded attaining path', 'float addition rounds monotonically, keeps the sign and never passes infinity',
                            'the native operations are compared through their common contracts, each of which determines the result']},
    'C08': {'assumptions': ['scipy.ndimage.label numbers the connected components (by the structure given) of the cells that are not zero, from 1 without gaps', 'machine arithmetic treated as mathematical (volume and area in the filter)',
                            'the filter is a function of least, greatest value, sum, number of cells, volume and area', 'a raster transform with cells that are square within one percent is given; direction codes 0..8 with edge cells dry and flowing off the raster',
                            'the readers and writers are stand-ins with the contract of the io classes'],
            'bounded': ['the textual filter (malstroem.scripts._utils.check_filter, parse_filter: replacement in a text and eval) is decided by concrete runs only: random filter texts against an own evaluator']},
    'C09': {'assumptions': ['machine arithmetic treated as mathematical (products and quotients of the attributes)', 'scipy.ndimage.label numbers the connected components of the cells that are not zero, from 1 without gaps',
                            'the transformation of cell coordinates by GDAL is a fixed function of the six coefficients and the coordinates (uninterpreted)',
                            'a raster transform with cells that are square within one percent is given; direction codes 0..8 with edge cells dry and flowing off the raster', 'existence of the least surface with a well-founded attaining path',
                            'the readers and writers are stand-ins with the contract of the io classes']},
    'C11': {'assumptions': ['no path to the next label is the end of another one (every pour point is the last cell of its label on the paths through it)'], 'level': 'other',
            'technique': 'contract-based deductive verification of the functions that find the paths and that insert one junction; bounded concrete runs of the recursion over them',
            'note': 'Proved: the path and the label met from each pour point (next_downstream_label), and that one junction is inserted rightly (_prune_common_flow). Bounded, not proved: the grouping and the recursion.',
            'bounded': ['_split_into_common_flow_groups, _untangle and geometric_pourpoint_network (a recursive generator over shared dictionaries, outside the heap model): concrete runs only, seeded acyclic direction rasters up to 14x14 cells with up to 30 pour points']},
    'C12': {'assumptions': ['the transformation of cell coordinates by GDAL is a fixed function of the six coefficients and the coordinates (uninterpreted)', 'machine arithmetic treated as mathematical (the half added to row and column)',
                            'pour points are in label order, beginning with that of the background, and their cells lie in the raster', 'what the network with junctions consists of is not decided here (C11): any list of nodes whose ids of pour points are labels and whose ids of junctions are not',
                            'the readers and writers are stand-ins with the contract of the io classes']},
    'C13': {'assumptions': ['machine arithmetic treated as mathematical (sums and products of float64)', 'the readers and writers are stand-ins with the contract of the io classes: read() gives a fresh copy of the raster, the features handed to the writer are what is written']},
    'C14': {'assumptions': ['machine arithmetic treated as mathematical (sums, differences and quotients of float64)', 'the nodes are a forest: unique ids, downstream ids are ids of nodes, no cycles; capacities and inputs are not negative',
                            'existence of the balance of a finite forest (recursion over the depth)', 'the readers and writers are stand-ins with the contract of the io classes']},
    'C15': {'assumptions': ['machine arithmetic treated as mathematical (the two corrections of the bounds for rounding are exercised by the concrete runs only)', 'np.histogram counts a value in the bin whose edges contain it, the last bin including its upper edge',
                            'every label up to the greatest one has cells and one pour point', 'the text of an integer written with str() is read back by int(); the vector file keeps attribute values', 'the readers and writers are stand-ins with the contract of the io classes']},
    'C16': {'assumptions': ['machine arithmetic treated as mathematical', 'np.interp interpolates linearly on the segment that contains the value', 'the histogram has cells in its first bin and belongs to the capacity (volume at the last bin but one not above it)',
                            'the readers and writers are stand-ins with the contract of the io classes']},
    'C17': {'assumptions': ['the difference of two different finite float64 is not rounded to zero', 'levels and elevations are finite', 'every label up to the greatest one has a level',
                            'the readers and writers are stand-ins with the contract of the io classes']},
    'C19': {'assumptions': ['GDAL returns for a raster what was written to it: values of the type of the raster, transform, coordinate system, nodata value', 'np.isclose: |a - b| <= 1e-8 + 1e-5 |b| for numbers, equality for infinities, false for NaN; machine arithmetic in it treated as mathematical',
                            'the substitute is a number of the type of the raster', 'the transform and the coordinate system given are not empty'],
            'bounded': ['float16 arrays and real GeoTIFF files (GDAL itself): concrete runs only']},
    'C20': {'assumptions': ['the algorithms (fill, flow, label, network, rain, hypsometry, levels) are functions of what they are given: contracts of the other properties', 'a file holds what was written to it until it is written again (C19 for rasters); substituting nodata by the value nodata has changes nothing',
                            'the components of a label raster all of whose labels are kept are its labels', 'texts given as options are not empty; different texts name different files and layers', 'single precision terrain (other types: concrete runs)',
                            'machine arithmetic treated as mathematical in the commands (area of a cell)', 'existence of the least surface with a well-founded attaining path of at most 2**40 cells',
                            'float64 addition rounds monotonically with relative error at most 2**-53 (absolute 2**-1075)', 'option parsing by click is not looked at'],
            'bounded': ['reading and writing real files and the parsing of the filter text: concrete runs of the complete command against the single commands']},
}
NA = {
    'C21': 'The writing and reading is done by GDAL/OGR (ogr2ogr through a temporary file); the code here passes opaque objects on, there is no source whose contract would decide it.',
    'C22': 'The polygons are produced by gdal.Polygonize; the geometry of its output cannot be expressed as a contract on code in this repository.',
}
