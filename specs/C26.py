"""C26 Repulsion acts only near obstacles and pushes away from the reference point."""
from .common import *


def offset_of(v, o, a):
    return sub3(v.get(a, 'get_position'), v.get(o, 'get_reference_position'))


def dist(v, o, a):
    m = v.get(a, 'get_safety_margin')
    return v.get(o, 'compute_distance_to_point', v.get(a, 'get_position'), Mat(3, 1, [m, m, m], 'A'))


def threshold(v):
    """no repulsion at or beyond the threshold"""
    e = v.sptr('obstacle'); a = agent(v, 'agent'); t = v.real('threshold')
    d = v.get(e, 'compute_distance_to_agent', a)
    r = v.get(e, 'generate_repulsion', a, t)
    rep = v.get(e, 'compute_repulsion_vector', a)
    for i in range(3): v.ensure('repels only when nearer than the threshold', eq(r(i), ite(lt(d, t), rep(i), ZERO)))


def agent_distance(v):
    """the distance compared is that to the agent, with its margin"""
    e = v.sptr('obstacle'); a = agent(v, 'agent')
    v.ensure('distance to the agent uses its margin', eq(v.get(e, 'compute_distance_to_agent', a), dist(v, e, a)))


def ellipsoid_vector(v):
    """the vector for ellipsoids"""
    e = ellipsoid(v, 'e'); a = agent(v, 'agent')
    r = v.get(e, 'compute_repulsion_vector', a)
    o = offset_of(v, e, a); d = dist(v, e, a)
    for i in range(3): v.ensure('offset from the reference point times 2/distance', eq(r(i), mul(o(i), div(num(2), d))))


def factor(v):
    """the factors by type of the obstacle"""
    e = v.sptr('obstacle'); a = agent(v, 'agent'); f = v.real('factor')
    v.ensure('repulsion factor', eq(v.get(e, 'get_repulsion_factor', a, f), div(f, dist(v, e, a))))
    v.ensure('default repulsion factor is 2', eq(v.get(e, 'get_repulsion_factor', a), div(num(2), dist(v, e, a))))


def aggregate_vector(v):
    """the vector for aggregates, reversed inside closed ones"""
    e = v.obj('Aggregate', 'g'); a = agent(v, 'agent')
    opaque(v, 'Aggregate::point_is_inside'); opaque(v, 'Aggregate::compute_distance_to_point')
    r = v.get(e, 'compute_repulsion_vector', a)
    o = offset_of(v, e, a); d = dist(v, e, a)
    ins = v.get(e, 'point_is_inside', v.get(a, 'get_position'))
    for i in range(3): v.ensure('offset times 20/distance, reversed inside', eq(r(i), mul(o(i), ite(ins, num(-1), ONE), div(num(20), d))))


def plain(v):
    """an obstacle of a kind that defines no repulsion does not repel"""
    o, a = v.sptr('obstacle'), agent(v, 'agent')
    r = v.run_body(v.prog.byq[NS + 'Obstacle::compute_repulsion_vector'][0], v.lvof(o), [v.lvof(a)])
    for i in range(3): v.ensure('no repulsion unless the kind defines one', eq(r(i), ZERO))


TASKS = [threshold, agent_distance, factor, ellipsoid_vector, aggregate_vector, plain]
