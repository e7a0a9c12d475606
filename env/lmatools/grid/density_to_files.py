import numpy as np

from lmatools.stream.subset import coroutine


@coroutine
def flash_count_log(logfile, format_string="%s flashes in frame starting at %s"):
    """Receive (flashes, frame_start) and note the count in logfile."""
    try:
        while True:
            flashes, frame_start_time = (yield)
            if logfile is not None:
                logfile.write(format_string % (len(flashes), frame_start_time) + '\n')
    except GeneratorExit:
        pass


@coroutine
def flashes_to_frames(time_edges, targets, time_key='start', do_events=False,
                      time_edges_datetime=None, flash_counter=None):
    """Route (events, flashes) to one target per half-open frame [t_i, t_i+1).

    With do_events naming a time column the events are routed by their own
    times too; otherwise every frame gets all events.
    """
    if time_edges_datetime is None:
        time_edges_datetime = time_edges
    assert len(time_edges) == len(time_edges_datetime)
    assert len(time_edges) == len(targets) + 1

    while True:
        events, flashes = (yield)
        start_times = flashes[time_key]
        sort_idx = np.argsort(start_times, kind='stable')
        idx = np.searchsorted(start_times[sort_idx], time_edges)
        slices = [slice(*i) for i in zip(idx[0:-1], idx[1:])]
        if do_events:
            ev_times = events[do_events]
            ev_sort_idx = np.argsort(ev_times, kind='stable')
            ev_idx = np.searchsorted(ev_times[ev_sort_idx], time_edges)
            ev_slices = [slice(*i) for i in zip(ev_idx[0:-1], ev_idx[1:])]
        else:
            ev_slices = [None] * (len(time_edges) - 1)
        for target, s, ev_s, frame_start in zip(targets, slices, ev_slices,
                                                time_edges_datetime[:-1]):
            these_flashes = flashes[sort_idx][s]
            these_events = events if ev_s is None else events[ev_sort_idx][ev_s]
            if flash_counter is not None:
                flash_counter.send((these_flashes, frame_start))
            target.send((these_events, these_flashes))


@coroutine
def extract_events_for_flashes(target, flashID_key='flash_id'):
    """Take (events, flashes); send each flash with its own events."""
    while True:
        evs, fls = (yield)
        for fl in fls:
            target.send((evs[evs[flashID_key] == fl[flashID_key]], fl))


@coroutine
def no_projection(x_coord, y_coord, z_coord, target, use_flashes=False):
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        target.send((events, flashes, np.atleast_1d(points[x_coord]),
                     np.atleast_1d(points[y_coord]), np.atleast_1d(points[z_coord])))


@coroutine
def project(x_coord, y_coord, z_coord, mapProj, geoProj, target, use_flashes=False):
    cs = mapProj.fromECEF
    while True:
        events, flashes = (yield)
        points = flashes if use_flashes else events
        x, y, z = cs(*geoProj.toECEF(np.atleast_1d(points[x_coord]),
                                     np.atleast_1d(points[y_coord]),
                                     np.atleast_1d(points[z_coord])))
        target.send((events, flashes, np.atleast_1d(x), np.atleast_1d(y),
                     np.atleast_1d(z)))


@coroutine
def point_density(target, weight_key=None, weight_flashes=True):
    """Send x, y (and weights) of every point that arrives."""
    while True:
        events, flash, x, y, z = (yield)
        if len(x) > 0:
            weights = None
            if weight_key is not None:
                weights = flash[weight_key] if weight_flashes else events[weight_key]
            target.send((x, y, weights))


@coroutine
def extent_density(x0, y0, dx, dy, target, weight_key=None,
                   event_grid_area_fraction_key=None):
    """Count each flash once in every grid box it touches."""
    while True:
        events, flash, x, y, z = (yield)
        if len(x) > 0:
            xi = np.floor((x - x0) / dx).astype('int32')
            yi = np.floor((y - y0) / dy).astype('int32')
            _, unq = np.unique(np.stack([xi, yi]), axis=1, return_index=True)
            weights = None
            if weight_key is not None:
                weights = np.ones(len(unq)) * flash[weight_key]
            frac = None
            if event_grid_area_fraction_key is not None:
                frac = events[event_grid_area_fraction_key][unq]
            target.send((x[unq], y[unq], weights, frac))


@coroutine
def accumulate_points_on_grid(grid, xedge, yedge, out=None, label='',
                              grid_frac_weights=False):
    assert xedge.shape[0] == grid.shape[0] + 1
    assert yedge.shape[0] == grid.shape[1] + 1
    if out is None:
        out = {}
    try:
        while True:
            if grid_frac_weights:
                x, y, weights, grid_frac = (yield)
            else:
                x, y, weights = (yield)
                grid_frac = None
            if len(x) > 0:
                w = weights
                if grid_frac is not None:
                    w = grid_frac if w is None else w * grid_frac
                count, _ = np.histogramdd((np.atleast_1d(x), np.atleast_1d(y)),
                                          bins=(xedge, yedge), weights=w)
                grid += count.astype(grid.dtype)
    except GeneratorExit:
        out['out'] = grid


accumulate_energy_on_grid = accumulate_points_on_grid


@coroutine
def accumulate_points_on_grid_sdev(grid, grid2, xedge, yedge, out=None, label='',
                                   grid_frac_weights=True):
    while True:
        yield


@coroutine
def accumulate_minimum_on_grid(grid, xedge, yedge, out=None, label='',
                               grid_frac_weights=True):
    while True:
        yield
