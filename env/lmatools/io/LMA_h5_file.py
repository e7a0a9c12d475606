class LMAh5Collection(object):
    """Time index over a list of files; iterate to get (events, flashes)."""

    def __init__(self, filenames, base_date=None, min_points=None):
        self.filenames = filenames
        self.base_date = base_date
        self.min_points = min_points
        self._time_lookup = {}
        self.times = [t for t in self._all_times()]
        self.times.sort()

    def _all_times(self):
        for fname in self.filenames:
            for t in self._table_times_for_file(fname):
                yield t

    def __iter__(self):
        for t in self.times:
            yield self.data_for_time(t)


def parse_lma_h5_filename(name):
    raise NotImplementedError('not part of the stand-in')
