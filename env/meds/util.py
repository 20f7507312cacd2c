import numpy as np


def get_image_info_struct(nimage, path_len, wcs_len=None, ext_len=None,
                          extra_dtype=None):
    return np.zeros(nimage, dtype=[
        ('image_id', 'i8'), ('image_flags', 'i8'), ('magzp', 'f4'),
        ('scale', 'f4'), ('position_offset', 'f8'),
        ('image_path', 'U%d' % path_len)])
