#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this to regenerate it)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Subsetting a lightning tree keeps exactly the requested lineage',
     "Reducing a parent/child dataset to a list of entity ids at any level keeps those entities (in the order and with the repetition they were requested, ids that do not exist being ignored), every descendant of them, exactly their ancestors, and nothing else. "
     "Every kept row carries the same values as in the source, reductions can be chained, and the source dataset is left unchanged. "
     "The result does not depend on the order of rows in the source, on the size or integer type of the ids, or on whether some entities have no children.",
     ['inputs', 'histories'],
     'every tree shape, row order, id assignment, entity level and requested id list within the bound, and every chain of reductions',
     'The tests reduce one fixed storm tree to a few fixed id lists; none permutes rows, requests absent or repeated ids, chains reductions or looks at values of other variables.',
     ['glmtools/io/traversal.py', 'glmtools/io/glm.py'],
     [('descend and ascend pruning of the tree', 'glmtools/io/traversal.py reduce_to_entities'),
      ('flash retrieval', 'glmtools/io/glm.py get_flashes')],
     ['dataset returned by reduce_to_entities and get_flashes', 'source dataset afterwards'])

prop('C02', 'Derived counts and ancestor ids agree with the parent/child tree',
     "For any flash/group/event tree, the group count and event count of each flash, the event count of each group and the parent flash of each event that opening a file adds are those implied by the parent ids, aligned row by row with the entities, in any row order and including entities with no children. "
     "The same holds for child counts and replicated ancestor ids of generic hierarchies between any two levels.",
     ['inputs'], 'every tree shape, row order and id assignment within the bound, hierarchies of two to four levels',
     'The tests compare one fixed tree; the file-level test needs data read paths that fail in this environment, and no test permutes rows or has childless entities at each level.',
     ['glmtools/io/traversal.py', 'glmtools/io/glm.py'],
     [('child counting', 'glmtools/io/traversal.py count_children'),
      ('ancestor id replication', 'glmtools/io/traversal.py replicate_parent_ids'),
      ('derived variables on open', 'glmtools/io/glm.py __init_parent_child_data')],
     ['variables added to the opened dataset', 'return values of count and replicate calls'])

prop('C03', 'Broken parent/child trees are reported exactly and repaired on open',
     "Checking a tree reports, per level, exactly the ids that have no child and the parent references that match no parent, with correct unique counts. "
     "Opening a file whose tree is inconsistent yields a tree in which no flash, group or event refers to a missing parent and no flash or group is without children, keeping every flash, group and event that has a complete lineage; a consistent file is left as it is. "
     "A file with no flashes, groups or events opens without error as an empty dataset.",
     ['inputs', 'fault_sequences'], 'every small tree with any set of rows removed at any level or any parent reference redirected, including empty levels',
     'The only test of inconsistency removes one hand-picked entity; opening inconsistent or empty files is not tested at all.',
     ['glmtools/io/traversal.py', 'glmtools/io/glm.py'],
     [('consistency report', 'glmtools/io/traversal.py check_parent_child'),
      ('pruning on open', 'glmtools/io/glm.py GLMDataset.__init__')],
     ['report tuples', 'dataset of the opened file'])

prop('C04', 'Selecting flashes by place and size returns exactly the matching flashes',
     "Selecting flashes by longitude, latitude, fixed-grid coordinates, minimum number of groups or minimum number of events returns exactly those flashes whose centroid lies strictly inside every given range and whose counts reach every given minimum, each with all its groups and events even where those lie outside the range. "
     "Unless disabled, flashes with no event inside the instrument field of view narrowed by the given fixed-grid ranges are left out; criteria combine by conjunction and selecting again with the same criteria changes nothing.",
     ['inputs', 'configurations'], 'every combination of criteria over flashes placed inside, outside, on and either side of each bound',
     'No test calls the selection with any criterion.',
     ['glmtools/io/glm.py'],
     [('flash filter', 'glmtools/io/glm.py subset_flashes'), ('event field-of-view filter', 'glmtools/io/glm.py _check_event_xy')],
     ['dataset returned by subset_flashes'])

prop('C05', 'Opening a file normalises units and sentinel values, once and only there',
     "After opening, flash and group areas are in km2 whatever the stored units, missing (overflowed) areas have the largest encodable area, event energies below the smallest encodable step are replaced by half that step, and flash, group and event energies are in nJ; every other value is unchanged. "
     "Times of files from the weeks in Oct-Nov 2018 that lack the unsigned marker are decoded as unsigned and all other files keep their times; each normalisation can be switched off on its own.",
     ['inputs', 'configurations'], 'every combination of stored units, sentinel placements, product dates around the affected period, and switches',
     'No test opens a file in square metres, with overflowed areas, zero energies or affected times.',
     ['glmtools/io/glm.py'],
     [('area overflow', 'glmtools/io/glm.py _check_area_overflow'), ('area units', 'glmtools/io/glm.py _check_area_units'),
      ('zero energies', 'glmtools/io/glm.py _eliminate_zero_energy'), ('energy units', 'glmtools/io/glm.py _change_energy_units'),
      ('time repair', 'glmtools/io/glm.py _check_and_fix_missing_unsigned_time')],
     ['variables and attributes of the opened dataset'])

prop('C06', 'Pre-aggregating events by location conserves counts, energy and areas',
     "Grouping events by discretised location assigns two events the same location id exactly when they fall in the same cell, anywhere in the field of view. "
     "For each occupied location the table holds the summed energy and number of its events, the number of distinct flashes and groups seen there, the summed area of each of those once, the smallest of those flash areas, the mean event position and the product time; totals over locations equal totals over events and the input dataset is not modified.",
     ['inputs'], 'every assignment of events of small trees to cells including neighbours, row ends and field-of-view corners, in any row order',
     'One test compares energies on one sample file with exact float equality and cannot run here; id uniqueness, counts, areas and minima are untested.',
     ['glmtools/io/glm.py'],
     [('aggregation', 'glmtools/io/glm.py get_lutevents, event_lut_iter'), ('location ids', 'glmtools/io/glm.py discretize_2d_location')],
     ['dataset returned by get_lutevents', 'ids returned by discretize_2d_location'])

prop('C07', 'Fixed grid coordinates are the true line-of-sight angles of each location',
     "Converting longitude and latitude to fixed-grid coordinates gives the scan angles of the straight line from the satellite to the point where the Earth radius through that latitude and longitude meets the lightning ellipsoid, for any satellite longitude, either side of the date line, north and south. "
     "The ellipsoid is the one in force on the observation date (changing on 15 October 2018), or the one explicitly requested, and opened files carry these coordinates for flashes, groups and events row by row without changing the longitudes and latitudes.",
     ['inputs', 'configurations'], 'a lattice of locations, satellite longitudes, ellipsoid revisions and dates up to and across the boundaries',
     'Two tests check a handful of points against tabulated values with loose tolerance and one ellipsoid date each side; date-line wrap, other satellites and opened files are not covered.',
     ['glmtools/io/lightning_ellipse.py', 'glmtools/io/glm.py'],
     [('projection', 'glmtools/io/lightning_ellipse.py ltg_ellps_lon_lat_to_fixed_grid'),
      ('ellipsoid by date', 'glmtools/io/lightning_ellipse.py ltg_ellpse_rev, ltg_ellps_radii'),
      ('coordinates on open', 'glmtools/io/glm.py __init_fixed_grid_data')],
     ['returned coordinates', 'coordinates in the opened dataset'])

prop('C08', 'Slicing polygons by a grid partitions their area over the right cells',
     "Slicing a polygon by a quadrilateral grid yields pieces that each lie inside the polygon and inside the grid cell they are attributed to, and whose areas per cell equal the true overlap of polygon and cell. "
     "The fraction of the polygon and the fraction of the cell are reported correctly, so that the polygon fractions sum to one for a polygon inside the grid and to the covered part for a polygon that sticks out, for regular and irregular grids in either index order, winding order of the polygon, and whichever way the candidate cells are looked up.",
     ['inputs', 'configurations'], 'every polygon of a small family at every lattice offset on regular, uneven, rotated and transposed grids, with each lookup mode',
     'No test exercises the clipping code.',
     ['glmtools/grid/clipping.py', 'glmtools/grid/split_events.py'],
     [('candidate cells', 'glmtools/grid/clipping.py QuadMeshSubset'), ('clipping', 'glmtools/grid/clipping.py QuadMeshPolySlicer.slice, make_sub_polys'),
      ('properties of pieces', 'glmtools/grid/split_events.py split_event_data')],
     ['pieces, fractions and indices returned by slicing and splitting'])

prop('C09', 'Event footprints follow the corner table and pixel lookup is nearest',
     "The footprint of an event is its location plus the corner offsets of the table: equal to the tabulated offsets at a table node, between those of the surrounding nodes elsewhere and equal to the nearest node outside the table, scaled by the requested inflation, shifted with the satellite longitude and given in table corner order, independently for each event. "
     "The pixel lookup returns the valid pixel nearest to a location, never a masked one, and both tables survive being saved and loaded.",
     ['inputs', 'configurations'], 'every node, cell midpoint and outside point of small tables and of the shipped table, with masks, shifts and inflation',
     'No test covers the corner table or pixel lookup.',
     ['glmtools/io/ccd.py'],
     [('corner interpolation', 'glmtools/io/ccd.py quads_from_corner_lookup'), ('pixel lookup', 'glmtools/io/ccd.py create_pixel_lookup'),
      ('save and load', 'glmtools/io/ccd.py save_/load_ functions')],
     ['returned quadrilaterals and indices'])

prop('C10', 'Gridded lightning fields equal what the events imply, cell by cell',
     "Gridding a set of files on the fixed grid gives in each cell the energy of the events whose footprint overlaps it in proportion to the overlapped part of the footprint, extent densities that count each flash and group once per event location weighted by the covered part of the cell, centroid counts of the flashes and groups whose centre lies in the cell, the area totals weighted the same way and the smallest flash area present. "
     "Total energy is conserved for events inside the grid, and the result does not depend on the order of files or of rows, on how events are divided over files covering the same time or on the chunk size used while reading.",
     ['inputs', 'histories', 'configurations'], 'every small arrangement of flashes, groups and events over grid positions, files and chunk sizes within the bound',
     'The gridding code cannot be imported in the test environment without its companion package and no test runs it.',
     ['glmtools/grid/make_grids.py', 'glmtools/io/mimic_lma.py', 'glmtools/grid/split_events.py', 'glmtools/grid/accumulate.py'],
     [('pipeline', 'glmtools/grid/make_grids.py GLMlutGridder'), ('reading and weighting', 'glmtools/io/mimic_lma.py read_flashes, fast_fixed_grid_read_chunk'),
      ('accumulation', 'glmtools/grid/accumulate.py')],
     ['grids held by the gridder and fields in the written files'])

prop('C11', 'Every observation lands in the one time frame that contains it',
     "Gridding over a time range produces one image per interval, with consecutive intervals that share edges; an observation exactly on an edge belongs to the later interval and observations before the first or from the last edge on appear in none. "
     "Flash and group centroids are placed by the time the flash starts or the group occurs, and extents, areas and energies by the time of the file they come from; times are exact across midnight and for any base date.",
     ['inputs', 'configurations'], 'every placement of file and flash times relative to frame edges, frame lengths and ranges including midnight',
     'No test grids data in time.',
     ['glmtools/grid/make_grids.py', 'glmtools/io/mimic_lma.py', 'glmtools/io/imagery.py'],
     [('frame routing', 'glmtools/grid/make_grids.py framers'), ('seconds since base date', 'glmtools/io/mimic_lma.py sec_since_basedate'),
      ('image times', 'glmtools/io/imagery.py write_goes_imagery')],
     ['grids per frame, times and names of written files'])

prop('C12', 'Processing in tiles gives the same picture as processing in one piece',
     "When the target grid is divided into tiles the tiles abut without gap or overlap and cover exactly the requested grid with whole cells, each is processed with the same options, and each written field equals the corresponding part of the field made in one piece, including lightning that straddles tile borders (when the flash centroid lies within the 100 km padding of the tile). Each tile has image files of its own, all of which are reported. "
     "Padding used while processing never appears in the output.",
     ['inputs', 'configurations'], 'every grid size, position, spacing and tile count within the bound, with lightning at every position relative to tile borders',
     'No test runs the tiling code.',
     ['glmtools/grid/make_grids.py'],
     [('range division', 'glmtools/grid/make_grids.py subdivide_bnd'), ('tile options', 'glmtools/grid/make_grids.py subdivided_fixed_grid'),
      ('padding removal', 'glmtools/grid/make_grids.py GridOutputPreprocess')],
     ['tile bounds, options and written fields'])

prop('C13', 'Written images reproduce the grids: orientation, scaling, averages, coordinates',
     "Reading back a written image gives in every cell the gridded value to within half an encoding step (values too small to encode become the smallest encodable one and empty cells are missing), with rows from north to south, columns from west to east and coordinates of the cell centres. "
     "Average areas are total area divided by count as gridded, whether or not scaled integers are written, and writing does not change the gridded data, so writing again gives the same images.",
     ['inputs', 'configurations', 'histories'], 'every small grid content over an alphabet of empty, tiny, half-step and large values, with and without scaling, padding and repeated writing',
     'One test builds a variable from an array and looks at its shape and attributes; nothing is written or read back.',
     ['glmtools/io/imagery.py'],
     [('writer', 'glmtools/io/imagery.py write_goes_imagery'), ('encoding', 'glmtools/io/imagery.py glm_image_to_var'),
      ('coordinates', 'glmtools/io/imagery.py get_goes_imager_fixedgrid_coords')],
     ['written NetCDF files, gridder grids afterwards'])

prop('C14', 'Product names, times and metadata describe the data and read back exactly',
     "Each image is named and labelled with the platform, scene, start and end time of the data it holds: the start, end and creation times in a file name parse back to the same instant to a tenth of a second for every day of year including leap days, the scene follows from the span of the grid, the nominal resolution from its spacing, the units state the cell area and frame length, and platform, slot, instrument and satellite longitude come from the input; all times, the creation time included, are in UTC. "
     "Output paths follow the requested template with missing directories created.",
     ['inputs', 'configurations'], 'every day of a leap and common year, second and tenth boundaries, scene spans, resolutions, platforms and path templates within the bound',
     'One test builds metadata for one time and compares one attribute.',
     ['glmtools/io/imagery.py', 'glmtools/io/glm.py'],
     [('naming and attributes', 'glmtools/io/imagery.py get_glm_global_attrs'), ('scene inference', 'glmtools/io/imagery.py infer_scene_from_dataset'),
      ('name parsing', 'glmtools/io/glm.py parse_glm_filename')],
     ['file names, global attributes, projection variables, parsed times'])

prop('C15', 'Aggregating images in time sums counts and recomputes means and minima',
     "Aggregating one-minute images over longer intervals puts every image inside the range in exactly the interval that starts at or before it and ends after it, sums densities and energy, takes the smallest minimum flash area and recomputes average flash and group areas as total area over total count. "
     "Cells without lightning are ignored in sums and minima, and the stated coverage times are those of the intervals. "
     "Summed and minimum fields keep their units, and the projection parameters and the satellite subpoint are carried over.",
     ['inputs', 'configurations'], 'every sequence of up to a few images with empty and non-empty cells, gaps, interval lengths and ranges',
     'No test aggregates images.',
     ['glmtools/io/imagery.py'], [('aggregation', 'glmtools/io/imagery.py aggregate')], ['dataset returned by aggregate'])

prop('C16', 'Opening a series of images keeps each file with its own time',
     "Combining image files gives a dataset with one time per file, in the order given, each time being the start of coverage of that file and each slice that file's fields unchanged, with coverage times spanning from the earliest start to the latest end.",
     ['inputs'], 'every order of up to a few files with distinct contents, gaps and overlaps',
     'No test opens a series.',
     ['glmtools/io/imagery.py'], [('series reader', 'glmtools/io/imagery.py open_glm_time_series, gen_file_times')], ['returned dataset'])

prop('C17', 'Text lightning data convert without losing, mixing or reordering records',
     "Converting a text file of flashes, groups and events yields one row per record of each kind in file order with every field in its own variable at full printed precision, parent ids and counts intact, whatever the interleaving, indentation-level mix or lines of other kinds; the merged dataset contains all three levels with identifiers, times and positions as coordinates and is saved unchanged.",
     ['inputs'], 'every sequence of up to a few records of each kind with signed, large and tiny field values and other lines between',
     'No test covers the converter.',
     ['glmtools/io/convert_lcfa.py'], [('record parsing', 'glmtools/io/convert_lcfa.py gen_*_data'), ('merging', 'glmtools/io/convert_lcfa.py merge_dataframes_to_xarray')],
     ['data frames, merged dataset, written file'])

prop('C18', 'Grids accumulate batches one after another without loss',
     "Sending any sequence of batches, each naming a cell at most once, to the sum accumulator leaves in every cell the sum of the values sent there and to the minimum accumulator the smallest of the (positive) values sent there, untouched cells staying zero, independent of how the values are divided into batches and of their order. "
     "Selecting event or parent records forwards each non-empty batch unchanged and in order and drops only empty ones, and closing hands over the accumulated grid.",
     ['histories'], 'every sequence of up to a few batches over a small grid and value alphabet',
     'The module cannot be imported in the test environment and no test covers it.',
     ['glmtools/grid/accumulate.py'], [('accumulators', 'glmtools/grid/accumulate.py')], ['target grids'])

prop('C19', 'Repair of unsigned data recovers the true value for every code',
     "For data stored as signed integers marked unsigned and already scaled as signed, the repair returns for every one of the stored codes the value the unsigned code stands for, whatever the scale, offset and precision in which the data were scaled; values already in range are unchanged.",
     ['inputs'], 'all 256 and all 65,536 codes for 8 and 16 bit data, each scale and offset used by the product',
     'No test covers the repair functions.',
     ['glmtools/io/glm.py'], [('unsigned repair', 'glmtools/io/glm.py fix_unsigned, fix_event_locations')], ['returned values'])

prop('C20', 'The point-source table view lists every flash and event faithfully',
     "Reading a collection of files as event and flash tables gives, for each file time, one flash row per selected flash and one event row per event of those flashes, with identifiers, positions, energies and areas of the source, times in seconds since the base date and durations from first to last event and its own number of events as point count, each event carrying the id of its parent flash. "
     "The same holds at group and event level, and the tables do not depend on the chunk size used while reading.",
     ['inputs', 'configurations'], 'every small tree, selection and chunk size within the bound, base dates around midnight',
     'The module cannot be imported in the test environment and no test covers it.',
     ['glmtools/io/mimic_lma.py'], [('table construction', 'glmtools/io/mimic_lma.py mimic_lma_dataset'), ('collection', 'glmtools/io/mimic_lma.py GLMncCollection')],
     ['tables returned by read_flashes, mimic_lma_dataset and data_for_time'])

prop('C21', 'Merging footprints and measuring areas preserve the covered region',
     "Merging a set of polygons yields polygons that cover exactly the points covered by at least one of them, without overlap, so that their total area equals the area of the union whatever the order or overlap of the inputs, which share one winding; a hole comes as a polygon of the opposite winding. "
     "Computed polygon areas equal the true area up to the sign given by winding, singly or for many polygons at once.",
     ['inputs'], 'every set of up to a few lattice polygons',
     'No test covers polygon merging or area calculation.',
     ['glmtools/grid/clipping.py'], [('union', 'glmtools/grid/clipping.py join_polys'), ('areas', 'glmtools/grid/clipping.py poly_area, vectorized_poly_area'),
      ('cells from edges', 'glmtools/grid/clipping.py polys_from_quadmesh')], ['returned polygons and areas'])

prop('C22', 'Splitting lightning level by level over a grid keeps coverage and energy',
     "Splitting the events, groups and flashes of a dataset by a mesh gives at each level one piece per grid cell touched by the footprint of each event, group or flash, where the footprint of a group or flash is the union of its slightly enlarged event footprints. "
     "The pieces of an entity carry its id and time, are placed inside its part of the cell, state the fraction of the cell that the entity covers, and share its energy in proportion to their area, so that an entity wholly on the grid gives away its energy exactly once, in however many parts its footprint lies. "
     "Parent rows are those of the unsplit data, and splitting some flashes gives the same as splitting all of them.",
     ['inputs', 'configurations'], 'every small tree with every placement of its events among touching and separate places, grids finer and coarser than a footprint, in angles and in degrees',
     'The module cannot be imported in the test environment and no test covers it.',
     ['glmtools/io/mimic_lma.py', 'glmtools/grid/split_events.py', 'glmtools/grid/clipping.py'],
     [('level by level splitting', 'glmtools/io/mimic_lma.py read_flash_chunk'), ('weights', 'glmtools/grid/split_events.py replicate_and_weight_split_child_dataset')],
     ['tables returned by and sent from read_flash_chunk with a mesh'])

prop('C23', 'Drawing a flash shows exactly that flash',
     "Drawing a flash by its id puts one marker at the place of the flash, one at each of its groups and one at each of its events, groups and events coloured by their own energy, and nothing of any other flash; the title names the flash and its first and last event times. "
     "Given axes and a given transform are used, and the dataset is not changed.",
     ['inputs'], 'every small tree in any row order, every flash of it, with and without given axes',
     'No test covers the plotting helpers.',
     ['glmtools/plot/locations.py'], [('flash plot', 'glmtools/plot/locations.py plot_flash')], ['markers, values and title of the returned axes'])

prop('C24', 'Drawing images shows each field of the requested time in its own panel',
     "Drawing fields of a series of images for a given time gives one map panel per field in the order requested, in which each cell is coloured by the value of that field at that time on the colour scale of the field, cells without lightning keeping the background colour, north up and at its place in the fixed grid. "
     "Each panel names the time, the field and its largest value, carries the next letter, and has a colour bar of its own scale on it. All panels are on the projection of the data (sweep axis included) and share their limits; what was in the figure before is gone, other figures and the data are not changed.",
     ['inputs', 'histories'], 'every choice and order of fields, times, grids, layouts, empty cells and earlier contents of the figure',
     'No test covers the plotting helpers; a picture of the wrong time, upside down or on another scale looks plausible.',
     ['glmtools/plot/grid.py', 'glmtools/plot/values.py'], [('panels', 'glmtools/plot/grid.py plot_glm_grid'), ('scales and labels', 'glmtools/plot/values.py display_params')], ['colours of the rendered figure, texts, colour bars, limits and projection of the returned axes'])

prop('C25', 'The gridding command makes the images its arguments describe',
     "Run on lightning files with the fixed grid and split events, the gridding command writes one image per frame from the requested start (or the start of the earliest file) to the requested end (or 20 s after the start of the latest file), in the requested directory, on exactly the cells of the requested region, spacing and satellite position. "
     "The fields are those of the flashes that have at least the requested numbers of events and groups, located with the requested ellipsoid, stored as numbers of the requested kind and divided in as many tiles as requested. "
     "The order of the files does not matter, and when start and end are given neither do their names.",
     ['configurations'], 'every choice and pair of choices of arguments within the bound',
     'No test runs the command; each argument is handed through several layers, and its effect depends on the others.',
     ['examples/grid/make_GLM_grids.py', 'glmtools/grid/make_grids.py', 'glmtools/io/imagery.py', 'glmtools/io/mimic_lma.py'],
     [('arguments', 'examples/grid/make_GLM_grids.py grid_setup'), ('gridding of files', 'glmtools/grid/make_grids.py grid_GLM_flashes'), ('selection', 'glmtools/io/mimic_lma.py read_flashes')],
     ['files written by the command'])

prop('C26', 'Walking a lightning tree by id visits each entity with its own children',
     "The groupings of a hierarchy by entity and by parent, which are kept per level and reachable from the name of the entity or of the parent, visit every id once, each with exactly its own rows in their order and with the values of the dataset. "
     "For an opened file they show the units and rows that the opened dataset has, so that the first group of a flash or all its events can be found from them.",
     ['inputs'], 'every small hierarchy of two to four levels, row order and id assignment within the bound, also with empty levels',
     'The tests use the groupings of one fixed tree indirectly; the examples that walk them are not run.',
     ['glmtools/io/traversal.py', 'glmtools/io/glm.py'], [('groupings', 'glmtools/io/traversal.py OneToManyTraversal.__init__'), ('opened files', 'glmtools/io/glm.py GLMDataset.__init__')],
     ['ids, row numbers and subsets that the groupings give'])

prop('C27', 'Each event has an equal share of the area of its group',
     "The area of an event is the area of its group divided by the number of events of that group, for every event of an opened file or of any selection of its flashes, groups or events, in the order of the events. "
     "The data are not changed.",
     ['inputs'], 'every small tree and every selection from it within the bound, in any row order',
     'No test calls it; the result depends on the order of groups and events.',
     ['glmtools/io/glm.py'], [('event areas', 'glmtools/io/glm.py event_areas')], ['return value of event_areas'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
