"""Builders of small datasets and calibration products through corgidrp's public constructors."""
import os
import numpy as np
from astropy.io import fits
from astropy.time import Time
import corgidrp
import corgidrp.data as data

MJD0 = 60000.0


def pri(**kw):
    h = fits.Header()
    h["OBSNUM"] = 1
    h["VISTYPE"] = "SCI"
    h["ORIGIN"] = "TEST"
    for k, v in kw.items():
        h[k] = v
    return h


def ext(**kw):
    h = fits.Header()
    d = dict(SCTSRT=Time(MJD0, format="mjd").isot, EXPTIME=1.0, OPMODE="HLC", EMGAIN_C=1.0, EMGAIN_A=-1.0,
             EXCAMT=40.0, KGAINPAR=8.0, ARRTYPE="SCI", DATALVL="L2a", BUNIT="DN", RN=10.0)
    d.update(kw)
    for k, v in d.items():
        if v is not None:
            h[k] = v
    return h


def isot(mjd8):
    """mjd8: eighths of a day after MJD0."""
    return Time(MJD0 + mjd8 / 8.0, format="mjd").isot


def image(arr, err=None, dq=None, name="CGI_0200001001001001001_20240705T0000000_L2a.fits", filedir=None, p=None, e=None, **kw):
    arr = np.array(arr, dtype=float)
    if dq is None:
        dq = np.zeros(arr.shape, dtype=np.uint16)
    im = data.Image(arr, pri_hdr=pri(**(p or {})), ext_hdr=ext(**(e or {})),
                    err=None if err is None else np.array(err, dtype=float), dq=np.array(dq), **kw)
    im.filename = name
    if filedir is not None:
        im.filedir = filedir
    return im


def fname(i, lvl="L2a"):
    return "CGI_0200001001001001%03d_20240705T000%04d_%s.fits" % (i % 1000, i, lvl + ("" if lvl.startswith("L2") else "_"))


def inputs(n=1, names=None, lvl="L2a", shape=(2, 2), e=None):
    return data.Dataset([image(np.zeros(shape), name=(names[i] if names else fname(i, lvl)), e=e) for i in range(n)])


KINDS = ["Dark", "NonLinearityCalibration", "KGain", "BadPixelMap", "DetectorNoiseMaps", "FlatField", "DetectorParams",
         "AstrometricCalibration", "TrapCalibration", "FluxcalFactor", "FpamFsamCal", "CoreThroughputCalibration",
         "NDFilterSweetSpotDataset"]
CLS = {k: getattr(data, k) for k in KINDS}


def product(kind, p=None, e=None, ds=None, val=0.5, **kw):
    """A calibration product of the given kind, built by its own constructor."""
    ph, eh = pri(**(p or {})), ext(**(e or {}))
    if ds is None:
        ds = inputs()
    if isinstance(ds, str):          # "none": no input dataset
        ds = None
    if kind == "Dark":
        return data.Dark(kw.pop("arr", np.full((2, 2), val)), pri_hdr=ph, ext_hdr=eh, input_dataset=ds,
                         err=kw.pop("err", np.full((1, 2, 2), 0.25)), dq=kw.pop("dq", np.zeros((2, 2), dtype=np.uint16)),
                         err_hdr=fits.Header())
    if kind == "FlatField":
        return data.FlatField(kw.pop("arr", np.full((2, 2), val)), pri_hdr=ph, ext_hdr=eh, input_dataset=ds)
    if kind == "NonLinearityCalibration":
        a = kw.pop("arr", np.array([[np.nan, 1., 10.], [1., .5, .5], [100., 1.5, 1.5]]))
        return data.NonLinearityCalibration(a, pri_hdr=ph, ext_hdr=eh, input_dataset=ds)
    if kind == "KGain":
        return data.KGain(np.array([[val]]), err=np.array([[0.125]]), ptc=kw.pop("ptc", np.array([[1., 2.], [3., 4.]])),
                          pri_hdr=ph, ext_hdr=eh, err_hdr=fits.Header(), input_dataset=ds)
    if kind == "BadPixelMap":
        return data.BadPixelMap(kw.pop("arr", np.array([[0, 4], [8, 12]], dtype=np.uint8)), pri_hdr=ph, ext_hdr=eh, input_dataset=ds)
    if kind == "DetectorNoiseMaps":
        eh["B_O"], eh["B_O_ERR"] = 1.0, 0.5
        a = kw.pop("arr", np.arange(12.).reshape(3, 2, 2) + val)
        return data.DetectorNoiseMaps(a, pri_hdr=ph, ext_hdr=eh, input_dataset=ds, err=kw.pop("err", np.full((1,) + a.shape, .25)),
                                      dq=kw.pop("dq", np.zeros(a.shape, dtype=np.uint16)), err_hdr=fits.Header())
    if kind == "DetectorParams":
        o = data.DetectorParams(kw.pop("params", {}), date_valid=Time(eh["SCTSRT"]))
    elif kind == "FpamFsamCal":
        o = data.FpamFsamCal(kw.pop("arr", np.arange(8.).reshape(2, 2, 2) + val), date_valid=Time(eh["SCTSRT"]))
    elif kind == "AstrometricCalibration":
        return data.AstrometricCalibration(np.arange(10.) + val, pri_hdr=ph, ext_hdr=eh, input_dataset=ds)
    elif kind == "TrapCalibration":
        return data.TrapCalibration(np.arange(20.).reshape(2, 10) + val, pri_hdr=ph, ext_hdr=eh, input_dataset=ds)
    elif kind == "FluxcalFactor":
        for k, v in (("FPAMNAME", "HOLE"), ("FSAMNAME", "OPEN"), ("CFAMNAME", "1F")):
            if k not in eh:
                eh[k] = v
        return data.FluxcalFactor(np.array([[val]]), err=np.array([[[0.125]]]), pri_hdr=ph, ext_hdr=eh,
                                  err_hdr=fits.Header(), input_dataset=ds)
    elif kind == "CoreThroughputCalibration":
        eh["EXTNAME"] = "PSFCUBE"
        eh["DATETIME"] = eh["SCTSRT"]
        n = 2
        ct = kw.pop("ct", np.array([[1., 2.], [3., 4.], [.5, .25]]))
        hl = [fits.ImageHDU(data=ct, name="CTEXCAM"), fits.ImageHDU(data=np.array([6854., 22524.]), name="CTFPAM"),
              fits.ImageHDU(data=np.array([29471., 12120.]), name="CTFSAM")]
        return data.CoreThroughputCalibration(np.full((ct.shape[1], 3, 3), val), pri_hdr=ph, ext_hdr=eh, input_hdulist=hl,
                                              err=np.zeros((1, ct.shape[1], 3, 3)), dq=np.zeros((ct.shape[1], 3, 3), dtype=np.uint16),
                                              input_dataset=ds)
    elif kind == "NDFilterSweetSpotDataset":
        for k, v in (("FPAMNAME", "ND225"), ("FSAMNAME", "OPEN"), ("CFAMNAME", "1F"), ("FPAM_H", 1.), ("FPAM_V", 2.)):
            if k not in eh:
                eh[k] = v
        return data.NDFilterSweetSpotDataset(kw.pop("arr", np.array([[1., 2., 3.], [2., 4., 5.]])), pri_hdr=ph, ext_hdr=eh, input_dataset=ds)
    else:
        raise KeyError(kind)
    for k, v in (e or {}).items():
        o.ext_hdr[k] = v
    for k, v in (p or {}).items():
        o.pri_hdr[k] = v
    return o
