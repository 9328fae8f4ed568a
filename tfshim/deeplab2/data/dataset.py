"""The descriptor of Waymo's data set in DeepLab2."""
import collections

DatasetDescriptor = collections.namedtuple("DatasetDescriptor", [
    "dataset_name", "splits_to_sizes", "num_classes", "ignore_label", "panoptic_label_divisor",
    "class_has_instances_list", "is_video_dataset", "colormap", "is_depth_dataset", "ignore_depth"])
WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET = DatasetDescriptor(
    "waymo_open_dataset_pvps_image_panoptic_seg_multicam", {}, 29, 0, 100000, tuple(range(2, 13)), True, "waymo", False, None)
MAP_NAME_TO_DATASET_INFO = {WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET.dataset_name: WOD_PVPS_IMAGE_PANOPTIC_SEG_MULTICAM_DATASET}
