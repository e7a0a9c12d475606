NOTES['C01'] = 'every small forest, request list and chain of reductions, compared with a list model'
NOTES['C02'] = 'every small forest and opened tree, every pair of levels, compared with counting by hand'
NOTES['C03'] = 'every small tree with every combination of up to two faults, compared with a set model of complete lineages'
NOTES['C04'] = 'every combination of criteria over flashes on every side of every bound'
NOTES['C05'] = 'every file within the stated number of departures from a plain one, all switches'
NOTES['C06'] = 'every assignment of events of small trees to neighbouring, row-end and corner cells'
NOTES['C07'] = 'a complete lattice of positions, satellites and dates against independent vector geometry'
NOTES['C19'] = 'all codes of 8 and 16 bit data'
NOTES['C08'] = 'every polygon shape at every lattice offset over nine meshes and all lookups, against an independent geometry library'
NOTES['C21'] = 'every pair and triple of lattice polygons, against an independent geometry library and point membership'
NOTES['C09'] = 'every node, edge and cell of small tables and of the shipped table; every mask of small pixel arrays'
NOTES['C18'] = 'every sequence of batches of the stated alphabet'
NOTES['C10'] = 'every small arrangement of lightning over positions, rows, files and chunks, compared cell by cell with a reference model; the model of the companion package is validated on the published sample product'
NOTES['C11'] = 'every combination of file, flash and group time around every frame edge for several dates'
NOTES['C12'] = 'every division of a range within the bound; tiled and untiled runs of the same lightning compared cell by cell'
NOTES['C13'] = 'all codes of each written field, over grids, scalings and paddings, read back from the written file'
NOTES['C14'] = 'every day of a leap and a common year, time boundaries, spans, spacings, platforms and templates within the bound'
NOTES['C15'] = 'every history of images over the stated alphabet, aggregated over every range, compared with a list model'
NOTES['C16'] = 'every small set of images, naming and time range within the bound'
NOTES['C17'] = 'every small set of text records within the bound, converted, written and read back'
NOTES['C20'] = 'every small tree, chunk size, selection and base date, compared with a row model; the collection base class of the companion package is a stand-in'
NOTES['C22'] = 'every small tree and placement of events over several grids, compared with unions and intersections of an independent geometry library'
NOTES['C23'] = 'every small tree and every flash of it, markers compared with a list model'
NOTES['C26'] = 'every small forest and opened tree, every grouping of every level compared with the rows by hand'
NOTES['C27'] = 'every small tree and every selection of its flashes, groups and events, compared with dividing by hand'
NOTES['C25'] = 'every argument and pair of arguments within the bound, the written images compared cell by cell with the reference model of gridding'
NOTES['C24'] = 'every small choice of fields, time, grid and layout within the bound; the rendered figure compared cell by cell with the data'
