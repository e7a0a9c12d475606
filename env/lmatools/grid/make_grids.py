from datetime import datetime, timedelta

import numpy as np

from lmatools.grid.fixed import GeographicSystem


def edges(bnd, delta):
    n = int(np.round((bnd[1] - bnd[0]) / delta))
    return bnd[0] + delta * np.arange(n + 1, dtype='f8')


class FlashGridder(object):
    """Grid and time frame bookkeeping; subclasses provide the pipelines."""

    def __init__(self, start_time, end_time, do_3d=True, frame_interval=120.0,
                 dx=4.0e3, dy=4.0e3, dz=1.0e3, base_date=None,
                 x_bnd=(-100e3, 100e3), y_bnd=(-100e3, 100e3),
                 z_bnd=(0e3, 20e3), ctr_lat=33.5, ctr_lon=-101.5, ctr_alt=0.0,
                 proj_name='aeqd', proj_datum='WGS84', proj_ellipse='WGS84',
                 pixel_coords=None, flash_count_logfile=None,
                 energy_grids=None, event_grid_area_fraction_key=None,
                 spatial_scale_factor=1.0/1000.0):
        self.start_time, self.end_time = start_time, end_time
        self.do_3d = do_3d
        self.frame_interval = frame_interval
        self.dx, self.dy, self.dz = dx, dy, dz
        self.base_date = base_date
        self.proj_name = proj_name
        self.flash_count_logfile = flash_count_logfile
        self.energy_grids = energy_grids
        self.event_grid_area_fraction_key = event_grid_area_fraction_key
        self.spatial_scale_factor = spatial_scale_factor
        self.min_points_per_flash = 1

        duration = (end_time - start_time).total_seconds()
        self.n_frames = int(np.ceil(duration / frame_interval))
        self.t_edges = [start_time + timedelta(0, frame_interval) * i
                        for i in range(self.n_frames + 1)]
        self.t_ref = datetime(start_time.year, start_time.month, start_time.day)
        self.t_edges_seconds = [(t - self.t_ref).total_seconds()
                                for t in self.t_edges]
        self.xedge = edges(x_bnd, dx)
        self.yedge = edges(y_bnd, dy)
        self.zedge = edges(z_bnd, dz)
        self.geoProj = GeographicSystem()
        self.mapProj = pixel_coords if pixel_coords is not None else self.geoProj
        self.pipeline_setup()
        self.output_setup()


def _absent(*args, **kwargs):
    raise NotImplementedError('not part of the stand-in')


write_cf_netcdf_latlon = write_cf_netcdf_noproj = write_cf_netcdf_fixedgrid = _absent
dlonlat_at_grid_center = grid_h5flashfiles = _absent
