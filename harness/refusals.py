"""Uses of pymech that are refused, whatever the circumstances."""
import copy
import io
import os

import gen
import jobs
import numpy as np
import refio
from pymech import meshtools as mt
from pymech import neksuite as nk
from pymech.dataset import open_dataset
from pymech.neksuite.field import Header, read_header


def small(rng, nd=2):
    return jobs.mesh_of(rng, nd)


def field(rng, **kw):
    return gen.to_hexa(gen.rand_field(rng, special=False, **kw))


def saved(d, name, b):
    p = os.path.join(d, name)
    jobs.save(p, b)
    return p


def header(**k):
    return Header(**(dict(wdsz=8, orders=(2, 2, 2), nb_elems=1, nb_elems_file=1, time=0.0, istep=0, fid=0, nb_files=1, variables="XU") | k))


def spoilt(rng, fn):
    m = gen.struct_mesh(rng, 2, maxn=2, nbc=1).mesh
    fn(m)
    return m


def dangling(m):
    m.elem[0].bcs[0, 0][0], m.elem[0].bcs[0, 0][3] = "E", m.nel + 4


def bare(m):
    m.elem[-1].bcs[0, 2] = ("", 0, 0, 0, 0, 0, 0, 0)


def flat(m):
    m.elem[0].pos[:, :, 0, 0] = m.elem[0].pos[:, :, 0, 1]


def cut(rng, d, nd=3):
    b = refio.fld_encode(gen.rand_field(rng, special=False, need_var=0))
    return saved(d, "cut0.f00001", b[: len(b) // 3])


def slanted(rng, d):
    f = gen.rand_field(rng, special=False, ndim=3, lr1=[3, 3, 3], var=[3, 3, 1, 0, 0])
    return saved(d, "slanted0.f00001", refio.fld_encode(f))


USES = dict(
    extrude_3d=lambda r, d: mt.extrude(small(r, 3), [0, 1]),
    extrude_high_order=lambda r, d: mt.extrude(field(r, ndim=2, lr1=[4, 4, 1], var=[2, 0, 0, 0, 0]), [0, 1]),
    extrude_one_sided=lambda r, d: (lambda m: mt.extrude(m, [0, 1], ["P"] * m.nbc, ["W"] * m.nbc))(small(r)),
    refine_3d=lambda r, d: mt.extrude_refine(small(r, 3), [0, 1], fun=[lambda x, y: x]),
    refine_layers=lambda r, d: (lambda m: mt.extrude_refine(m, [0, 1, 2, 3], fun=[lambda x, y: x - 1e3], funpar=[0.0]))(small(r)),
    refine_one_sided=lambda r, d: (lambda m: mt.extrude_refine(m, [0, 1, 2, 3, 4], ["W"] * m.nbc, ["P"] * m.nbc, fun=[lambda x, y: x - 1e3]))(small(r)),
    box_empty_x=lambda r, d: mt.gen_box(2, 2, 1.0, 1.0, 0.0, 1.0),
    box_empty_y=lambda r, d: mt.gen_box(2, 2, 0.0, 1.0, 2.0, 1.0),
    keep_beyond=lambda r, d: (lambda m: mt.keep_elements(m, [0, m.nel]))(small(r)),
    keep_negative=lambda r, d: mt.keep_elements(small(r), [-1]),
    merge_dimensions=lambda r, d: small(r, 2).merge(small(r, 3)),
    merge_orders=lambda r, d: field(r, ndim=2, lr1=[4, 4, 1], var=[2, 0, 0, 0, 0]).merge(field(r, ndim=2, lr1=[3, 3, 1], var=[2, 0, 0, 0, 0])),
    regenerate_flat=lambda r, d: mt.generate_internal_bcs(spoilt(r, flat)),
    check_connectivity=lambda r, d: spoilt(r, dangling).check_connectivity(),
    check_present=lambda r, d: spoilt(r, bare).check_bcs_present(),
    limits=lambda r, d: setattr(field(r).lims, "pos", 1),
    header_word=lambda r, d: header(wdsz=2),
    header_variables=lambda r, d: header(variables=""),
    header_cut=lambda r, d: read_header(saved(d, "h0.f00001", header().as_bytestring()[:40])),
    header_text=lambda r, d: read_header(io.StringIO("#std 8")),
    re2_order=lambda r, d: nk.writere2(os.path.join(d, "x.re2"), field(r, ndim=2, lr1=[4, 4, 1], var=[2, 0, 0, 0, 0])),
    re2_coordinates=lambda r, d: nk.writere2(os.path.join(d, "x.re2"), field(r, ndim=2, lr1=[2, 2, 1], var=[0, 2, 0, 0, 0])),
    nek_word=lambda r, d: (lambda h: (setattr(h, "wdsz", 2), nk.writenek(os.path.join(d, "x0.f00001"), h)))(field(r)),
    nek_cut=lambda r, d: nk.readnek(cut(r, d)),
    nek_missing=lambda r, d: nk.readnek(os.path.join(d, "none0.f00001")),
    nek_tag=lambda r, d: nk.readnek(saved(d, "t0.f00001", refio.fld_encode(gen.rand_field(r, special=False))[:132] + b"tagstagstags" * 9)),
    dataset_name=lambda r, d: open_dataset(os.path.join(d, "x.f90")),
    dataset_slanted=lambda r, d: open_dataset(slanted(r, d)),
)


def outcomes(seed, d):
    os.makedirs(d, exist_ok=True)
    out = {}
    for k in sorted(USES):
        try:
            USES[k](np.random.default_rng([seed, len(out)]), d)
            out[k] = "done"
        except Exception:
            out[k] = "refused"
    return out
