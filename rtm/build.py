"""Build real structuralcodes objects from plain specs."""

from __future__ import annotations

import shapely
from shapely.geometry import Polygon

from structuralcodes.geometry import (
    CompoundGeometry,
    PointGeometry,
    SurfaceGeometry,
)
from structuralcodes.materials.basic import GenericMaterial
from structuralcodes.materials.constitutive_laws import (
    BilinearCompression,
    Elastic,
    ElasticPlastic,
    InitialStrain,
    ParabolaRectangle,
    Parallel,
    Popovics,
    Sargin,
    UserDefined,
)
from structuralcodes.sections import GenericSection


def law(sp):
    k = sp['kind']
    if k == 'elastic':
        return Elastic(E=sp['E'], eps_u=sp.get('eps_u'))
    if k == 'ep':
        return ElasticPlastic(
            E=sp['E'], fy=sp['fy'], Eh=sp.get('Eh', 0.0), eps_su=sp.get('eps_su')
        )
    if k == 'pr':
        return ParabolaRectangle(
            fc=sp['fc'], eps_0=sp['eps_0'], eps_u=sp['eps_u'], n=sp['n']
        )
    if k == 'bilin':
        return BilinearCompression(
            fc=sp['fc'], eps_c=sp['eps_c'], eps_cu=sp['eps_cu']
        )
    if k == 'popovics':
        return Popovics(
            fc=sp['fc'], eps_c=sp['eps_c'], eps_cu=sp['eps_cu'], Ec=sp.get('Ec')
        )
    if k == 'sargin':
        return Sargin(
            fc=sp['fc'], eps_c1=sp['eps_c1'], eps_cu1=sp['eps_cu1'], k=sp['k']
        )
    if k == 'user':
        return UserDefined(
            x=sp['x'], y=sp['y'], flag=sp.get('flag', 0), eps_u=sp.get('eps_u')
        )
    if k == 'init':
        return InitialStrain(law(sp['law']), sp['e0'], sp.get('compat', True))
    if k == 'par':
        return Parallel([law(q) for q in sp['laws']], sp.get('w'))
    raise KeyError(k)


def material(m):
    """m: {'law': spec, 'density': d} or {'code': {...}} made by rtm.gen."""
    return GenericMaterial(density=m.get('density', 2500.0), constitutive_law=law(m['law']))


def polygon(surf):
    return Polygon(surf['ext'], surf.get('holes') or None)


def geometry(spec, mats=None, force_compound=True):
    mats = mats or [material(m) for m in spec['mats']]
    geos = [
        SurfaceGeometry(
            polygon(s),
            mats[s['mat']],
            concrete=s.get('concrete', False),
            name=s.get('name'),
            group_label=s.get('group'),
        )
        for s in spec['surfs']
    ]
    geos += [
        PointGeometry(
            shapely.Point(p['y'], p['z']),
            p['d'],
            mats[p['mat']],
            name=p.get('name'),
            group_label=p.get('group'),
        )
        for p in spec.get('points', [])
    ]
    if len(geos) == 1 and not force_compound:
        return geos[0]
    return CompoundGeometry(geos)


def section(spec, integrator='marin', **kw):
    return GenericSection(geometry(spec), integrator=integrator, **kw)
