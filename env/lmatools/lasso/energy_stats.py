class TimeSeriesPolygonLassoFilter(object):
    def __init__(self, *args, **kwargs):
        raise NotImplementedError
