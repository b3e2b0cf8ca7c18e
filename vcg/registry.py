"""Which contracts (proof units) and which replay harnesses belong to which property."""
import importlib

class Unit:
    def __init__(s, driver, module, fn='contracts', strip=None):
        s.driver, s.module, s.fn, s.strip = driver, module, fn, strip       # strip: library members kept as calls (default: extract.STRIP)
    def contracts(s):
        m = importlib.import_module('contracts.' + s.module)
        return getattr(m, s.fn)()

UNITS = {
    'heap': Unit('heap', 'heap'),
    'prim': Unit('prim', 'prim'),
    'boundary': Unit('boundary', 'boundary'),
    'knn': Unit('knn', 'knn'),
    'sort': Unit('sort', 'sort'),
    'cc': Unit('cc', 'cc'),
    'asm': Unit('asm', 'asm'),
    'cpu': Unit('cpu', 'cpu'),
    'dnn': Unit('dnn', 'dnn'),
    'top': Unit('top', 'top'),
    'cli': Unit('cli', 'cli', strip=[r'std::', r'(.* )?(void|bool|&|&&|\*|>) std::', r'operator (new|delete)', r'votess::', r'__gnu']),
    'gpu': Unit('gpu', 'gpu', strip=[r'std::vector<.*>::', r'std::(fill|copy|copy_n|fill_n|move|swap_ranges|sort|stable_sort)<', r'std::(min|max)[<(]', r'std::(basic_)?ostream', r'std::(endl|flush|operator<<)', r'votess::vtarg', r'std::(__cxx11::)?basic_', r'std::unordered_map', r'std::allocator<', r'std::pair<']),
    'args': Unit('args', 'args', strip=[r'std::unordered_map<', r'std::__detail::', r'std::__cxx11::', r'std::(basic_[io]stream|basic_ios|[io]stream|ios)', r'std::operator(\+|==|!=|<<|>>)', r'std::allocator<']),
    'py': Unit('py', 'py', strip=[r'std::unordered_map<', r'std::__detail::', r'std::__cxx11::', r'std::(basic_[io]stream|basic_ios|[io]stream|ios)', r'std::operator(\+|==|!=|<<|>>)', r'std::allocator<', r'std::vector<.*>::', r'votess::tesellate<', r'pybind11::isinstance<', r'votess::dnn<int>(::proxy)?::(print|savetxt)\(']),
}

# property: units as (unit, predicate on contract name), harnesses as (source, environment)
ANY = lambda n: True
def pre(*ps): return lambda n: n.startswith(ps)
BOUNDED = 'bounded stand-in (executable contract checked on generated inputs); deductive contracts in progress'
PROPS = {
    'C06': dict(units=[('prim', pre('planes::', 'xyzset::get_distance'))], oracles=[('planes', {})]),
    'C07': dict(units=[('prim', pre('sr::')), ('cc', pre('cci::'))], oracles=[('planes', {}), ('cc', {'ORACLE_VARIANT': 'host'})]),
    'C08': dict(units=[('prim', pre('cc::state', 'boundary::vstatus'))], oracles=[('status', {})]),
    'C18': dict(units=[('prim', pre('utils::'))], oracles=[('utils', {})]),
    'C03': dict(units=[('heap', ANY)], oracles=[('heap', {})]),
    'C01': dict(units=[('sort', ANY)], oracles=[('sort', {})]),
    'C02': dict(units=[('heap', ANY), ('knn', pre('knni::'))], oracles=[('knn', {'ORACLE_VARIANT': 'host'}), ('knn', {'ORACLE_VARIANT': 'device'})]),
    'C04': dict(units=[('cc', pre('cci::'))], oracles=[('cc', {'ORACLE_VARIANT': 'host'}), ('cc', {'ORACLE_VARIANT': 'device'})]),
    'C05': dict(units=[('prim', pre('boundary::')), ('boundary', ANY)], oracles=[('boundary', {})]),
    'C09': dict(units=[('dnn', ANY)], oracles=[('dnn', {})]),
    'C10': dict(units=[('args', ANY)], oracles=[('args', {})]),
    'C11': dict(units=[('cpu', pre('__cpu__tesellate')), ('asm', pre('tmpnn_fill'))], oracles=[('tess', {'ORACLE_MODE': 'threads'})]),
    'C12': dict(units=[('heap', lambda n: 'device' in n), ('knn', lambda n: n == 'knni::compute[device,column]'), ('boundary', lambda n: 'device' in n), ('cc', lambda n: n == 'cci::compute[device]'), ('gpu', lambda n: n == '__gpu__tesellate')], oracles=[('tess', {'ORACLE_MODE': 'device'}), ('knn', {'ORACLE_VARIANT': 'device'}), ('cc', {'ORACLE_VARIANT': 'device'})], level='proof'),
    'C13': dict(units=[('cpu', pre('__cpu__recompute')), ('asm', pre('tmpnn_fill'))], oracles=[('tess', {'ORACLE_MODE': 'recompute'})]),
    'C14': dict(units=[('asm', ANY)], oracles=[('tess', {'ORACLE_MODE': 'assembly'})]),
    'C15': dict(units=[('cc', pre('cci::')), ('heap', ANY), ('knn', pre('knni::'))], oracles=[('cc', {'ORACLE_VARIANT': 'host'}), ('cc', {'ORACLE_VARIANT': 'device'})]),
    'C16': dict(units=[('cli', lambda n: n == 'main')], oracles=[('cli', {})]),
    'C19': dict(units=[('top', pre('tesellate'))], oracles=[('tess', {'ORACLE_MODE': 'top'})]),
    'C20': dict(units=[('py', ANY)], oracles=[('py', {})], assumptions=['pybind11 stand-in (stub_py): a registered name calls the registered function; bool is an int; a conversion either gives the value or raises; keep_alive<0,1> ties the result to self; list-to-vector conversion of points is pybind11\'s own']),
}
NA = {
    'C17': 'No contract within reach decides a statement about rounded floating-point geometry (signs of rounded determinants) for all point sets; its ideal-arithmetic ingredients are C02, C04, C05, C06 and C07.',
}
