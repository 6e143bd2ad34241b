"""Catalogue of corgidrp's processing steps: how to call each on a small dataset with generated calibrations."""
import copy
import os
import numpy as np
import vf, mk
import corgidrp.data as data
import corgidrp.detector as det
import corgidrp.l1_to_l2a as l1
import corgidrp.l2a_to_l2b as l2a
import corgidrp.l2b_to_l3 as l2b
import corgidrp.l3_to_l4 as l3
import corgidrp.l4_to_tda as l4
import corgidrp.combine as combine
import corgidrp.photon_counting as pc

N = 12                                # image area is N x N
R0, C0 = 2, 5
GEOM = {"SCI": {"frame_rows": N + 5, "frame_cols": N + 9, "image": {"rows": N, "cols": N, "r0c0": [R0, C0]},
                "prescan": {"rows": N + 5, "cols": C0 - 1, "r0c0": [0, 0], "col_start": 1, "col_end": 4},
                "prescan_reliable": {"rows": N + 5, "cols": 3, "r0c0": [0, 1]},
                "parallel_overscan": {"rows": 2, "cols": N, "r0c0": [N + 3, C0]},
                "serial_overscan": {"rows": N + 5, "cols": 3, "r0c0": [0, N + 6]}}}
FULL = (N + 5, N + 9)
# the image area in full frames, as (row, column, rows, columns)
AREA = {"img": (R0, C0, N, N), "full": (0, 0) + FULL}

LEVELS = {"L1": "L1", "L2a": "L2a", "L2b": "L2b", "L3": "L3", "L4": "L4"}


def start(fam, n, seed, track=False, mixed=False):
    """A dataset with random pixels, errors and flags and complete headers, at the start of a processing level."""
    if fam == "SAT":
        return satspots(n, seed)
    r = np.random.default_rng([ord(c) for c in fam] + [n, seed])
    shape = FULL if fam == "L1" else (N, N)
    frames = []
    for i in range(n):
        d = np.round(r.uniform(20, 200, shape), 2)
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        d += 3000 * np.exp(-((xx - N / 2 - .3) ** 2 + (yy - N / 2 + .2) ** 2) / 2.5) * (fam != "L1")
        dq = r.choice(np.array([0, 0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 5, 130, 255, 513], dtype=np.uint16), shape)
        if fam in ("L2b", "L3", "L4"):
            dq[r.random(shape) < .6] = 0
        err = r.uniform(1, 3, (1,) + shape)
        lvl = {"L1": "L1_", "L2a": "L2a", "L2b": "L2b", "L3": "L3_", "L4": "L4_"}[fam]
        name = "CGI_0200001001001001%03d_20240705T000%04d_%s.fits" % (i + 1, i, lvl)
        p = dict(RA=80.0, DEC=-5.0, ROLL=float(10 * i), SATSPOTS=0, PSFREF=int(seed % 2 and n >= 3 and i == n - 1),
                 TARGET="Vega", VFID="F%d" % (i + 1), INSTRUME="CGI", TELESCOP="ROMAN")
        e = dict(EXPTIME=5.0 + (i if mixed else 0), EMGAIN_C=2.0, KGAINPAR=8.7, DATALVL=fam, STARLOCX=N / 2 - .5, STARLOCY=N / 2 - .5,
                 CFAMNAME="1F", FPAMNAME="HOLE", FSAMNAME="OPEN", LSAMNAME="NFOV", FSMPRFL="NFOV", OVEREXP=0, RESZ=.1, RESZ2=.1,
                 TTX=1.0, PLTSCALE=21.8, RN_ERR=1.0, ISPC=False, KEEPME=i)
        for k in ("FSMXRMS", "FSMYRMS", "Z2RES", "Z3RES", "Z2VAR", "Z3VAR"):
            e[k] = .01 * (i + 1)
        if seed % 3 == 1:
            e["EMGAIN_A"] = 3.0
        if seed % 3 == 2:
            e["EMGAIN_M"] = 2.5
        im = mk.image(d, err=err, dq=dq, name=name, filedir="in", p=p, e=e)
        if track:
            im.add_error_term(r.uniform(1, 2, shape), "earlier")
        im.ext_hdr["HISTORY"] = "made for a test"
        frames.append(im)
    return data.Dataset(frames)


SEP = 6.5 * (51.46 * .575 / 13)


def satspots(n, seed):
    """Frames of 48 x 48 pixels, odd ones with four satellite spots around a star position (L3)."""
    r = np.random.default_rng([9, n, seed])
    frames = []
    m = 48
    x0, y0 = m / 2 + .6, m / 2 - .4
    yy, xx = np.mgrid[:m, :m]
    for i in range(n):
        d = 5. + r.normal(0, .05, (m, m))
        d += 20 * np.exp(-((xx - x0) ** 2 + (yy - y0) ** 2) / 4)
        if i % 2:
            for t in (0, 90, 180, 270):
                d += 100 * np.exp(-((xx - x0 - SEP * np.cos(np.radians(t))) ** 2 + (yy - y0 - SEP * np.sin(np.radians(t))) ** 2) / 4)
        e = dict(EXPTIME=5.0, EMGAIN_C=2.0, KGAINPAR=8.7, DATALVL="L3", FSMPRFL="NFOV", CFAMNAME="1F", LSAMNAME="NFOV", KEEPME=i)
        p = dict(RA=80.0, DEC=-5.0, ROLL=float(10 * i), SATSPOTS=i % 2, PSFREF=0, VFID="F%d" % (i + 1))
        im = mk.image(d, err=r.uniform(1, 2, (1, m, m)), dq=dqmap(r, (m, m)), name="CGI_0200001001001001%03d_20240705T000%04d_L3_.fits" % (i + 1, i),
                      filedir="in", p=p, e=e)
        im.ext_hdr["HISTORY"] = "made for a test"
        frames.append(im)
    return data.Dataset(frames)


def dqmap(r, shape, bits=(0, 0, 0, 1, 4, 8, 132, 16)):
    return r.choice(np.array(bits, dtype=np.uint16), shape)


def calibs(step, opt, ds, seed, tmp):
    """The calibrations a call of the step needs, matching the dataset's frames."""
    r = np.random.default_rng([ord(c) for c in step] + [opt, seed])
    s = ds[0].data.shape[-2:]
    eh = {k: ds[0].ext_hdr[k] for k in ("EXPTIME", "EMGAIN_C", "KGAINPAR")}
    if step == "prescan_biassub":
        if opt % 2 == 0:
            return {"noise_maps": None}
        nm = mk.product("DetectorNoiseMaps", arr=r.uniform(0, 1, (3,) + FULL), err=r.uniform(0, .1, (1, 3) + FULL),
                        dq=dqmap(r, (3,) + FULL))
        return {"noise_maps": reload(nm, tmp)}
    if step == "detect_cosmic_rays":
        return {"detector_params": mk.product("DetectorParams", params={"FWC_PP_E": 1500., "FWC_EM_E": 2600.}),
                "k_gain": mk.product("KGain", val=8.0) if opt % 2 else None}
    if step == "correct_nonlinearity":
        if opt == 3:
            return {"non_lin_correction": None}
        return {"non_lin_correction": mk.product("NonLinearityCalibration",
                                                 arr=np.array([[np.nan, 1., 10.], [1., .9, .95], [5000., 1.1, 1.2]]))}
    if step == "dark_subtraction":
        if opt % 2 == 0:
            e = dict(eh)
            if opt == 2:
                e["EXPTIME"] += 1
            return {"dark": mk.product("Dark", arr=r.uniform(0, 5, s), err=r.uniform(0, 1, (1,) + s), dq=dqmap(r, s), e=e)}
        nm = mk.product("DetectorNoiseMaps", arr=r.uniform(0, 1, (3,) + FULL), err=r.uniform(0, .1, (1, 3) + FULL),
                        dq=dqmap(r, (3,) + FULL))
        return {"dark": reload(nm, tmp)}
    if step == "flat_division":
        a = r.uniform(.8, 1.2, s)
        a[r.random(s) < .1] = 0
        return {"flat_field": mk.product("FlatField", arr=a)}
    if step == "convert_to_electrons":
        return {"k_gain": mk.product("KGain", val=8.7, e={"RN": 100., "RN_ERR": 2.})}
    if step == "cti_correction":
        return {"pump_trap_cal": mk.product("TrapCalibration")}
    if step == "correct_bad_pixels":
        return {"bp_mask": mk.product("BadPixelMap", arr=dqmap(r, s, (0, 0, 0, 4, 8, 12)))}
    if step == "desmear":
        return {"detector_params": mk.product("DetectorParams")}
    if step in ("create_wcs", "distortion_correction"):
        a = mk.product("AstrometricCalibration")
        c = np.zeros((4, 4)); c2 = np.zeros((4, 4))
        c[0, 1], c2[1, 0] = 500., 500.
        if opt % 2:
            c[0, 0], c2[0, 0] = .4, -.3
        arr = np.concatenate([[80., -5., 21.8, 21.9, 15. * opt, .001, -.002], c.ravel() if False else c.T.ravel(), c2.T.ravel(), [3.]])
        return {"astrom_calibration": data.AstrometricCalibration(arr, pri_hdr=mk.pri(), ext_hdr=mk.ext(), input_dataset=mk.inputs())}
    if step == "update_to_l4":
        return {"corethroughput_cal": mk.product("CoreThroughputCalibration") if opt % 2 else None,
                "flux_cal": mk.product("FluxcalFactor", val=1e-12)}
    if step in ("convert_to_flux", "determine_flux"):
        return {"fluxcal_factor": mk.product("FluxcalFactor", val=2e-12)}
    return {}


def reload(obj, tmp):
    os.makedirs(tmp, exist_ok=True)
    obj.filename = "nm_%d.fits" % len(os.listdir(tmp))
    obj.save(filedir=tmp)
    return type(obj)(obj.filepath)


def call(step, opt, ds, cal, tmp):
    """Run the step with its option set on the dataset."""
    a = list(cal.values())
    if step == "prescan_biassub":
        return l1.prescan_biassub(ds, *a, return_full_frame=opt >= 2, detector_regions=GEOM)
    if step == "detect_cosmic_rays":
        return l1.detect_cosmic_rays(ds, cal["detector_params"], cal["k_gain"], detector_regions=GEOM,
                                     mode="full" if ds[0].data.shape == FULL and opt >= 2 else "image",
                                     cosm_box=opt, cosm_tail=3)
    if step == "correct_nonlinearity":
        return l1.correct_nonlinearity(ds, *a, threshold=[np.inf, 100., 150., 120.][opt])
    if step == "update_to_l2a":
        return l1.update_to_l2a(ds)
    if step == "add_photon_noise":
        return l2a.add_photon_noise(ds)
    if step == "dark_subtraction":
        return l2a.dark_subtraction(ds, *a, detector_regions=GEOM, outputdir=tmp)
    if step == "flat_division":
        return l2a.flat_division(ds, *a)
    if step == "frame_select":
        kw = [dict(), dict(bpix_frac=.5, allowed_bpix=3), dict(overexp=True, tt_rms_thres=.025), dict(tt_rms_thres=.015, discard_bad=False)][opt]
        return l2a.frame_select(ds, **kw)
    if step == "convert_to_electrons":
        return l2a.convert_to_electrons(ds, *a)
    if step == "em_gain_division":
        return l2a.em_gain_division(ds)
    if step == "cti_correction":
        return l2a.cti_correction(ds, *a)
    if step == "correct_bad_pixels":
        return l2a.correct_bad_pixels(ds, *a)
    if step == "desmear":
        return l2a.desmear(ds, *a)
    if step == "update_to_l2b":
        return l2a.update_to_l2b(ds)
    if step == "combine_subexposures":
        kw = [dict(), dict(num_frames_per_group=2, collapse="median"), dict(num_frames_per_group=1), dict(num_frames_scaling=False)][opt]
        return combine.combine_subexposures(ds, **kw)
    if step == "divide_by_exptime":
        return l2b.divide_by_exptime(ds)
    if step == "create_wcs":
        return l2b.create_wcs(ds, *a)
    if step == "update_to_l3":
        return l2b.update_to_l3(ds)
    if step == "distortion_correction":
        return l3.distortion_correction(ds, *a)
    if step == "crop":
        kw = [dict(sizexy=10), dict(sizexy=[8, 10], centerxy=[5.5, 5.5]), dict(sizexy=7), dict(sizexy=8)][opt]
        return l3.crop(ds, **kw)
    if step == "northup":
        kw = [dict(use_wcs=False), dict(use_wcs="CD1_1" in ds[0].ext_hdr), dict(use_wcs=False, rot_center="starloc"),
              dict(use_wcs=False, rot_center=[4., 5.])][opt]
        return l3.northup(ds, **kw)
    if step == "do_psf_subtraction":
        return l3.do_psf_subtraction(ds, numbasis=[1, 2] if opt % 2 else 1, outdir=tmp, do_crop=False, fileprefix="p", num_processes=1,
                                     measure_klip_thrupt=False, measure_1d_core_thrupt=False, mode=None)
    if step == "update_to_l4":
        return l3.update_to_l4(ds, *a)
    if step == "determine_app_mag":
        return l4.determine_app_mag(ds, "Vega")
    if step == "determine_color_cor":
        return l4.determine_color_cor(ds, "Vega", "TYC 4433-1800-1" if opt < 3 else "nobody")
    if step == "convert_to_flux":
        return l4.convert_to_flux(ds, *a)
    if step == "determine_flux":
        kw = [dict(), dict(photo="2dgauss"), dict(photo="nonsense"), dict()][opt]
        return l4.determine_flux(ds, *a, **kw)
    if step == "update_to_tda":
        return l4.update_to_tda(ds)
    if step == "find_star":
        few = {"offset": {"nSteps": 3, "nIter": 2}, "separation": {"nSteps": 3, "nIter": 2}}       # the default search takes seconds
        kw = [dict(), dict(drop_satspots_frames=False, satellite_spot_parameters=few), dict(satellite_spot_parameters=few),
              dict(star_coordinate_guess=(25., 23.), satellite_spot_parameters=few)][opt]
        return l3.find_star(ds, **kw)
    if step == "nan_flags":
        return det.nan_flags(ds, threshold=[1, 4, 32, 128][opt])
    if step == "flag_nans":
        return det.flag_nans(ds, flag_val=[1, 2, 16, 128][opt])
    raise KeyError(step)


ALL = ["prescan_biassub", "detect_cosmic_rays", "correct_nonlinearity", "update_to_l2a", "add_photon_noise", "dark_subtraction",
       "flat_division", "frame_select", "convert_to_electrons", "em_gain_division", "cti_correction", "correct_bad_pixels", "desmear",
       "update_to_l2b", "combine_subexposures", "divide_by_exptime", "create_wcs", "update_to_l3", "distortion_correction", "crop",
       "northup", "do_psf_subtraction", "update_to_l4", "determine_app_mag", "determine_color_cor", "convert_to_flux", "determine_flux",
       "update_to_tda", "find_star", "nan_flags", "flag_nans"]


def no_network():
    """Stand-in for the CALSPEC download: every star gets a synthetic spectrum."""
    import urllib.request
    from astropy.table import Table

    def fetch(url, filename=None):
        seed = sum(ord(c) for c in os.path.basename(filename))
        w = np.arange(3000., 11000., 10.)
        f = 1e-9 / (1 + seed % 7) * (w / 5000.) ** (-2 + seed % 3)
        tmp = filename + ".%d.tmp" % os.getpid()
        Table({"WAVELENGTH": w, "FLUX": f}).write(tmp, format="fits", overwrite=True)
        os.replace(tmp, filename)
        return filename, None
    urllib.request.urlretrieve = fetch
