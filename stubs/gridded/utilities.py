import numpy as np


def get_dataset(ncfile, dataset=None):
    raise NotImplementedError('gridded stand-in')


def _reorganize_spatial_data(points):
    """points as an (N, 2|3) array, whatever shape they came in"""
    if points is None:
        return None
    pts = np.asarray(points)
    if pts.ndim == 1:
        return pts.reshape(1, -1)
    return pts


def _align_results_to_spatial_data(data, locations):
    """results in the shape the caller's points had"""
    data = np.asanyarray(data)
    locs = np.asarray(locations)
    if locs.ndim == 1:
        if data.ndim == 0:
            return data
        return data[0] if len(data) == 1 else data
    return data


def gen_celltree_mask_from_center_mask(*args, **kwargs):
    raise NotImplementedError('gridded stand-in')


def convert_mask_to_numpy_mask(*args, **kwargs):
    raise NotImplementedError('gridded stand-in')
