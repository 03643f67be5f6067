import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
A='malstroem/algorithms/'
p('C01','Filled terrain is exactly the spill elevation',
 'For every elevation raster, the filled terrain equals, at each cell, the lowest elevation at which water standing there can leave the raster along some 8-connected path: the minimum over all paths to an edge cell of the highest terrain on the path. Hence it is never below the terrain, is unchanged on edge cells and wherever no depression exists, leaves every cell a non-uphill path to the edge, and is the lowest surface doing so. This holds with the native speedups on or off.',
 ['inputs','configurations'],'every float32 DEM of at least 2x2 cells without NaN, both back ends',
 'The tests fill two fixed 5x5-to-8x8 rasters and one stored DTM and compare with stored output (or only test > and >= on it); the sweep order, the stopping rule and the border sweeps are only right for every raster if a fixpoint is always reached.',
 [A+'fill.py',A+'speedups/_fill.pyx'],
 [('four-direction sweep to a fixpoint',A+'fill.py fill_terrain'),('cell relaxation',A+'fill.py _fill_cell / speedups/_fill.pyx _fill_terrain'),('edge initialisation',A+'fill.py _initialize_filled')],
 ['fill.fill_terrain return value','malstroem filled'])
p('C02','Flat-free conditioned surface drains strictly, and is the lowest such',
 'For every elevation raster and minimum drops for edge and corner neighbours, the flat-free filled surface equals the terrain on edge cells, is never below the terrain, and at every interior cell is the greater of the terrain and the cheapest "neighbour plus its minimum drop" (evaluated in double precision). Hence every interior cell has a neighbour lower by at least the minimum drop and no lower surface does. The automatically chosen minimum drops are always large enough to be felt by floating point at the elevations of the raster, the corner drop being sqrt(2) times the edge drop.',
 ['inputs','configurations'],'every float32 DEM of at least 2x2 cells without NaN, every non-negative pair of drops, both back ends',
 'One stored raster is compared; a surface that is only nearly a fixpoint, or drops that vanish in rounding at large elevations, look the same on it.',
 [A+'fill.py',A+'speedups/_fill.pyx'],
 [('sweep to a fixpoint with increments',A+'fill.py fill_terrain_no_flats'),('cell relaxation',A+'fill.py _fill_cell_no_flats / speedups/_fill.pyx _fill_terrain_no_flats'),('drop size',A+'fill.py minimum_safe_short_and_diag')],
 ['fill.fill_terrain_no_flats, fill.minimum_safe_short_and_diag return values'])
p('C03','Flow direction is the steepest descent, and "none" only without one',
 'Every interior cell is given the direction of a neighbour with the greatest downward slope (diagonal distance sqrt(2)), and the "no direction" code exactly when no neighbour is lower; the codes 0..7 mean up, up-right, right, down-right, down, down-left, left, up-left. Edge cells flow straight off the raster (corners diagonally), or have no direction when outward edges are not requested.',
 ['inputs','configurations'],'every finite float64 terrain of at least 2x2 cells, both settings of the edge option, both back ends',
 'One stored raster and a handful of hand-made 3x3 cases; neither ties, nor ridges, nor each of the 8 x 8 orderings of neighbour slopes are exercised.',
 [A+'flow.py',A+'speedups/_flow.pyx'],
 [('slope comparison chain',A+'flow.py _terrain_flow / speedups/_flow.pyx terrain_flow'),('outward edges',A+'flow.py set_edges_flow_outward'),('direction codes',A+'flow.py direction_to_delta, cell_in_direction')],
 ['flow.terrain_flowdirection return value','malstroem flowdir'])
p('C04','Every cell drains off the raster',
 'For flow directions derived from the flat-free surface of any elevation raster, following the directions from any cell visits no cell twice and ends by leaving the raster through an edge cell; no interior cell is without direction. Tracing a flow direction raster downstream yields exactly the cells of that path, starting with the given cell and ending with the last one inside the raster.',
 ['inputs','configurations'],'every float32 DEM (several orders of magnitude of elevation), both back ends; for tracing, every acyclic direction raster, with or without "no direction" cells',
 'The tests trace two cells of one stored raster; drainage of every cell depends on the conditioning, the drop sizes, the slope rule and the edge rule together.',
 [A+'fill.py',A+'flow.py',A+'speedups/_fill.pyx',A+'speedups/_flow.pyx','malstroem/dem.py'],
 [('strictly lower neighbour',A+'fill.py fill_terrain_no_flats'),('steepest descent',A+'flow.py _terrain_flow'),('tracing',A+'flow.py trace_downstream')],
 ['flow direction raster','flow.trace_downstream'])
p('C05','Accumulated flow counts exactly the cells draining through a cell',
 'For every acyclic flow direction raster, the accumulated flow of each cell is one plus the sum over the neighbours flowing into it, that is, the number of cells (itself included) whose downstream path passes through it. Consequently the values where flow leaves the raster, or stops at a cell without direction, sum to the number of cells.',
 ['inputs','configurations'],'every acyclic direction raster with codes 0..8, any shape, both back ends',
 'One stored raster; missing cells at confluences depend on the order in which branches are resolved, which differs for every drainage tree.',
 [A+'flow.py',A+'speedups/_flow.pyx',A+'_raster_utils.py'],
 [('trace from each cell until an unresolved confluence',A+'flow.py trace_accumulated_flow / speedups/_flow.pyx trace_accumulated_flow_cython'),('upstream neighbours',A+'flow.py upstream_cells, is_upstream_cell'),('scan of starting cells',A+'flow.py accumulated_flow')],
 ['flow.accumulated_flow return value','malstroem accum'])
p('C06','Watershed of a label = cells whose first labelled cell downstream has it',
 'After watershed assignment every labelled cell keeps its label, and every unlabelled cell of a raster whose edges flow outward carries the label of the first labelled cell on its downstream path, or stays unlabelled if the path leaves the raster without meeting one. Cells that do not drain off the raster keep what they had. Labels are taken over unchanged whatever integer type the label raster has and whatever value marks unlabelled cells.',
 ['inputs','configurations'],'every direction raster, every label raster (int32, int64, uint8, other), every background value, both back ends',
 'One stored raster with background 0 and int32 labels.',
 [A+'flow.py',A+'speedups/_flow.pyx',A+'_raster_utils.py'],
 [('upstream walk with a work stack',A+'flow.py assign_watersheds_upstream / speedups/_flow.pyx assign_watersheds_upstream_*_cython'),('start at every edge cell',A+'flow.py watersheds_from_labels, _raster_utils.py edge_cell_indexes')],
 ['flow.watersheds_from_labels (in place)','malstroem wsheds'],
 [('work stack','cells whose downstream neighbour is settled',A+'flow.py assign_watersheds_upstream')])
p('C07','Per-label statistics, extremes and cell values are exact',
 'For every data raster and label raster, each label has the count, sum, minimum and maximum of exactly its own cells (infinities and zero for an unused label), its extreme cell is the first in row order attaining the extreme value, and its gathered values are the values of exactly its cells in row order, empty for the background label. Setting labels to values puts into every cell the value listed for its label.',
 ['inputs','configurations'],'every data raster (any numeric type) and non-negative integer label raster of the same shape, with or without the number of labels given, any background label, both back ends',
 'The tests use one stored raster with contiguous int32 labels; ties, negative or unused labels, other types and another background value are not exercised.',
 [A+'label.py',A+'speedups/_label.pyx'],
 [('row order scan',A+'label.py label_stats, label_min_index, label_max_index, label_data'),('typed native variants',A+'speedups/_label.pyx'),('table lookup',A+'label.py set_label_to_value, keep_labels, label_count')],
 ['return values of the label functions'])
p('C08','Bluespots are the 8-connected wet regions that pass the filter',
 'Without a filter, bluespots are exactly the 8-connected regions of cells with non-zero depth, numbered 1..n without gaps, 0 being dry land. With a filter, a region is kept as a whole if and only if the filter accepts its area, maximum depth and volume (area and volume in metres from cell counts and depth sums), and kept regions are renumbered 1..m. A textual filter has the meaning of the written comparison over area, maxdepth and volume, and text with anything else in it is rejected.',
 ['inputs','configurations'],'every depth raster, cell size and filter function; every filter text',
 'One stored raster with two filter strings; a filter that drops parts of regions, off-by-one in labels, or units are input dependent.',
 ['malstroem/bluespots.py',A+'label.py','malstroem/scripts/_utils.py','malstroem/scripts/bluespot.py'],
 [('region labelling',A+'label.py connected_components'),('filter evaluation','malstroem/bluespots.py filterbluespots'),('keep mask',A+'label.py keep_labels'),('filter text','malstroem/scripts/_utils.py check_filter, parse_filter')],
 ['label raster written','malstroem bspots'])
p('C09','Pour point attributes agree with the rasters',
 'Every label from 0 upward gets exactly one pour point; its cell is the cell of the label with the greatest accumulated flow (or the lowest flat-free elevation when accumulated flow is not supplied). Its maximum depth, area and volume are those of the bluespot, its watershed area the cell count of the watershed times cell area, its fill depth 1000 x volume / watershed area, and its point is the world coordinate of the centre of the cell.',
 ['inputs','configurations'],'every set of label, watershed, depth, and accumulation or DEM rasters and every square-celled geotransform, both back ends',
 'One stored data set with a north-up 1.6 m geotransform.',
 ['malstroem/bluespots.py','malstroem/vector.py',A+'label.py','malstroem/scripts/bluespot.py'],
 [('assembly','malstroem/bluespots.py assemble_pourpoints'),('pour point choice','malstroem/bluespots.py BluespotTool.process'),('coordinates','malstroem/vector.py transform_cell_to_world')],
 ['pour point features'])
p('C10','A pour point is linked to the next bluespot downstream, along its path',
 'The downstream node of a pour point is the label of the first cell on its downstream path that carries a label different from its own and from the background, or none if the path leaves the raster (or stops) first. The path reported with it consists of exactly the cells from the pour point up to and including that cell. This is the same whether or not junction geometry is requested.',
 ['inputs'],'every acyclic direction raster, label raster, pour point cell and background label',
 'The tests trace pour points of a single stored raster.',
 [A+'net.py',A+'flow.py'],
 [('tracing until the label changes',A+'net.py next_downstream_label'),('relations',A+'net.py pourpoint_network')],
 ['net.next_downstream_label, net.pourpoint_network'])
p('C11','Inserting stream junctions preserves every flow path',
 'In the network with junctions, every pour point is present exactly once, ids are unique, new ids start after the greatest label, and the nodes form a forest in which following downstream ids from a pour point and joining the geometries gives exactly its downstream path cell by cell. A junction lies at the first cell shared by the paths that meet there, and no two nodes that flow to the same node share their last two cells.',
 ['inputs'],'every acyclic direction raster and label raster with one pour point per label that is the last cell of its label on the paths through it, so that downstream labels form a forest',
 'The tests check four hand-made pour points and one stored raster; how paths group and split recursively depends on the input tree.',
 [A+'net.py'],
 [('grouping',A+'net.py _split_into_common_flow_groups'),('pruning',A+'net.py _prune_common_flow'),('recursion',A+'net.py _untangle, geometric_pourpoint_network')],
 ['net.geometric_pourpoint_network'])
p('C12','Node and stream features state the network faithfully',
 'Each network node becomes one point feature with its id, downstream id, type and cell, located at the centre of its cell in world coordinates; pour point nodes carry the bluespot id, bluespot area and volume and watershed area of their own pour point, junction nodes carry none and zeros. Each node with a path becomes one line feature with the same id and downstream id through the world coordinates of its path cells in flow order.',
 ['inputs','configurations'],'every set of pour points in label order, label raster, direction raster and geotransform; streams requested or not',
 'One stored data set.',
 ['malstroem/streams.py','malstroem/vector.py',A+'net.py'],
 [('feature assembly','malstroem/streams.py StreamTool.process')],
 ['features handed to the vector writers'])
p('C13','Initial water volumes equal rain falling on each watershed',
 'With uniform rain every node receives its watershed area times the rain depth (mm x m2 / 1000). With a precipitation raster every node whose id is a label receives the sum of the raster over the cells with its label converted from the stated unit (mm: times cell area / 1000; litre: / 1000; m3: unchanged), every other node receives 0, and no other attribute changes.',
 ['inputs','configurations'],'every node set, rain depth, raster pair, unit, cell size and output attribute name, both back ends',
 'Three single rasters with one rain depth.',
 ['malstroem/rain.py',A+'label.py',A+'speedups/_label.pyx'],
 [('uniform','malstroem/rain.py SimpleVolumeTool.process'),('raster','malstroem/rain.py RasterVolumeTool.process')],
 ['features handed to the vector writer'])
p('C14','Final state conserves water through the network',
 'For every forest of nodes and non-negative volumes and capacities, each node receives its own input plus all spill of the nodes directly upstream, stores the smaller of this and its capacity, and spills exactly the rest, so it spills only when full and stored plus spilled equals received. Summed over all nodes, stored water plus the spill of nodes without downstream node equals the input. The result does not depend on the order in which nodes are listed, and the percentage filled is 100 x stored / capacity, none without capacity.',
 ['inputs','histories'],'every forest, node order, capacity and input; repeated events on one network',
 'Two or three fixed networks; evaluation order depends on the shape of the tree.',
 ['malstroem/network.py'],
 [('node balance','malstroem/network.py Network._calc_node'),('leaves-to-root order','malstroem/network.py Network._calc_stream_tree'),('all trees','malstroem/network.py Network.rain_event, FinalStateCalculator.process')],
 ['Network.rain_event','features handed to the vector writer'],
 [('node values','volumes already settled in this event','malstroem/network.py Network._node_rain_values')])
p('C15','Hypsometric histogram covers the bluespot and counts every cell once',
 'For every bluespot the histogram bins have the requested width, are aligned to multiples of it, and span all terrain elevations in the bluespot; the counts sum to the number of its cells, each cell being counted in the bin containing its elevation (apart from elevations within rounding of a bin border), and the reported lowest and highest elevation are those of its cells. Writing this to feature attributes and reading it back gives the same histogram.',
 ['inputs','configurations'],'every DEM (positive and negative elevations), label raster and positive resolution, both back ends',
 'Few hand-made positive elevations.',
 ['malstroem/hyps.py',A+'label.py'],
 [('bin layout','malstroem/hyps.py histogram_bins'),('per-label histogram','malstroem/hyps.py bluespot_hypsometry_stats'),('attributes','malstroem/hyps.py _hypsometrystats_to_flatdict, hypsometrystats_from_flatdict')],
 ['hypsometry features','hyps.bluespot_hypsometry_stats'])
p('C16','Estimated water level follows the stored volume',
 'A bluespot that is full (or has no capacity) gets the level bottom elevation + maximum depth. Otherwise the level is the interpolation of the volume-elevation curve built from its histogram, so it lies between the lowest and the highest elevation, is the lowest elevation for an empty bluespot, and never decreases when the stored volume increases. Each pour point node of the final state, and no other node, gets a level, and the reported maximum depth is the level minus the lowest elevation.',
 ['inputs'],'every histogram that belongs to the capacity, every capacity and stored volume; every mix of pour point and junction nodes in any order',
 'One stored data set.',
 ['malstroem/approx.py','malstroem/hyps.py'],
 [('volume curve','malstroem/approx.py _cumulative_volume, _bin_waterlevel_z'),('level choice','malstroem/approx.py approx_water_level_io')],
 ['features handed to the vector writer'])
p('C17','Final extents and depths are the level minus the terrain, cut at zero',
 'For every label raster with a level for every label up to the greatest, and DEM, the final depth of a bluespot cell is the greater of zero and its level minus its terrain, and zero on dry land; the final label of a cell is its label exactly where the level is not below the terrain, and the background elsewhere. The in-memory and the file-based variants agree.',
 ['inputs','configurations'],'every label raster, level table, DEM and background label; either or both outputs requested',
 'Hand-made 3x4 rasters with background 0.',
 ['malstroem/approx.py',A+'label.py'],
 [('levels to raster','malstroem/approx.py _labelvaluedict_to_list; '+A+'label.py set_label_to_value'),('cut','malstroem/approx.py approx_bluespots, approx_bluespots_io')],
 ['returned or written rasters'])
p('C18','Native and pure-Python back ends are interchangeable',
 'For every input both accept, every operation that has a native version returns the same values as its pure-Python version, including the choice among ties and the treatment of unused labels. Any sequence of enabling and disabling the speedups leaves exactly the selected version active, is harmless when repeated, and disabling restores the original operations.',
 ['inputs','configurations','histories'],'every input of the listed operations; every sequence of enable/disable calls',
 'Tests run some operations on stored rasters with both back ends and never compare ties or small rasters; the toggles are called once each.',
 [A+'speedups/__init__.py',A+'speedups/_fill.pyx',A+'speedups/_flow.pyx',A+'speedups/_label.pyx',A+'fill.py',A+'flow.py',A+'label.py'],
 [('same contract for both versions',A+'speedups/*.pyx'),('switching',A+'speedups/__init__.py enable, disable')],
 ['return values with speedups on and off'],
 [('saved originals','what disable restores',A+'speedups/__init__.py _orig')])
p('C19','Rasters survive writing and reading; nodata is substituted exactly',
 'Every array written is read back with the same values in every cell, the same georeferencing and nodata value: types the file format knows are kept, other integer types are stored in one that holds all the values, and what cannot be represented is refused instead of altered. On reading with a substitution value, the cells holding the nodata value (including 0 and NaN) are replaced, cells whose value is not within the comparison tolerance of numpy of it are untouched, and without a substitute or nodata value none is.',
 ['inputs','configurations'],'every array of native numpy integers up to 64 bit and floats up to float64, every geotransform, nodata value and substitute the type can represent',
 'A few small arrays of selected types.',
 ['malstroem/io.py'],
 [('type choice','malstroem/io.py RasterWriter.write'),('nodata mask','malstroem/io.py RasterReader.read')],
 ['array given to the writer versus array returned by the reader'])
p('C20','Stages chained separately and all at once give the same consistent results',
 'The DEM stage always writes depths that are filled minus original terrain, hence never negative, and flow directions and accumulation belonging to the same terrain. Running everything at once uses the documented chain of stages with each stage fed by the outputs of the earlier ones and the given rain, resolution and filter, so its outputs equal those of the single commands. It refuses an output directory that is missing or not empty, without touching it.',
 ['inputs','configurations'],'every DEM and every combination of options; every state of the output directory',
 'The command line tests run each command once on one DEM and check only the exit status and that files exist.',
 ['malstroem/dem.py','malstroem/bluespots.py','malstroem/scripts/complete.py','malstroem/scripts/dem.py','malstroem/scripts/bluespot.py','malstroem/scripts/stream.py','malstroem/scripts/initvolume.py','malstroem/scripts/finalstate.py','malstroem/scripts/hyps.py'],
 [('DEM stage','malstroem/dem.py DemTool.process'),('bluespot stage','malstroem/bluespots.py BluespotTool.process'),('whole chain','malstroem/scripts/complete.py process_all')],
 ['files in the output directory'])
p('C21','Vector layers keep every feature and attribute',
 'Every feature handed to a vector output is stored exactly once with its geometry and every attribute, in order, and reading the layer returns them.',
 ['inputs','configurations'],'every feature collection and OGR format with the needed types',
 'Round trips of one stored collection.',
 ['malstroem/io.py'],
 [('writing through a temporary GeoJSON file','malstroem/io.py VectorWriter.write_geojson_features'),('reading','malstroem/io.py VectorReader.read_geojson_features')],
 ['features read back'])
p('C22','Polygons cover exactly the labelled cells',
 'Vectorising a label raster gives polygons which together cover exactly the cells with a label, each carrying the label of the cells it covers.',
 ['inputs'],'every label raster',
 'One stored raster.',
 ['malstroem/vector.py'],
 [('polygonization','malstroem/vector.py vectorize_labels_file, vectorize_labels_file_io')],
 ['polygon features'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
