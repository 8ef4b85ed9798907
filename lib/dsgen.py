"""Datasets and reconstructions for the checks."""
import os

import numpy as np


def make_dataset(root, images=(), config=None, size=(8, 6)):
    """A dataset directory whose images are small random pictures. Returns the DataSet."""
    import cv2
    import yaml
    from opensfm import dataset

    os.makedirs(os.path.join(root, "images"), exist_ok=True)
    for i, name in enumerate(images):
        im = np.random.default_rng(i).integers(0, 256, (size[1], size[0], 3), dtype=np.uint8)
        ext = os.path.splitext(name)[1]
        ok, buf = cv2.imencode(ext if ext.lower() in (".jpg", ".png") else ".jpg", im)
        with open(os.path.join(root, "images", name), "wb") as f:
            f.write(buf.tobytes())
    with open(os.path.join(root, "config.yaml"), "w") as f:
        yaml.safe_dump(dict({"processes": 1}, **(config or {})), f)
    return dataset.DataSet(root)
