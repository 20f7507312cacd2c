"""stand-in: only meds.util.get_image_info_struct is used"""
from . import util  # noqa
