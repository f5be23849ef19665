"""Model of PyYAML's safe dumper and loader on node trees instead of text: scalars keep their type, tuples become lists, mappings are sorted by key."""
import numpy as np
import pandas as pd
import _yaml

REPRESENTERS = []
CONSTRUCTORS = []
FILES = {}
DIRS = {}           # folders known to exist: those of the documents and those made since


def parent(path):
    return '/'.join(str(path).split('/')[:-1]) or '.'


def make_dir(path, parents, exist_ok):
    if path in DIRS:
        if not exist_ok:
            raise FileExistsError(path)
        return
    up = parent(path)
    if up != '.' and up not in DIRS:
        if not parents:
            raise FileNotFoundError(path)
        make_dir(up, True, True)
    DIRS[path] = True



class YAMLError(Exception):
    pass


class RepresenterError(YAMLError):
    pass


class ConstructorError(YAMLError):
    pass


class Node:
    def __init__(self, tag, value):
        self.tag = tag
        self.value = value


class MappingNode(Node):
    pass


class SequenceNode(Node):
    pass


class ScalarNode(Node):
    pass


class YAMLObject:
    yaml_tag = None
    yaml_loader = None
    yaml_dumper = None
    yaml_flow_style = None

    @classmethod
    def from_yaml(cls, loader, node):
        return loader.construct_yaml_object(node, cls)

    @classmethod
    def to_yaml(cls, dumper, data):
        return dumper.represent_yaml_object(cls.yaml_tag, data, cls, flow_style=cls.yaml_flow_style)


class _Buffer:
    pass


class SafeDumper:
    def __init__(self, stream):
        self.stream = stream

    @classmethod
    def add_representer(cls, t, f):
        REPRESENTERS.append((t, f))

    @classmethod
    def add_multi_representer(cls, t, f):
        REPRESENTERS.append((t, f))

    def represent_data(self, data):
        if data is None or isinstance(data, (bool, int, float, str)):
            return ScalarNode('scalar', data)
        if isinstance(data, dict):
            return self.represent_mapping('map', data)
        if isinstance(data, (list, tuple)):
            return self.represent_sequence('seq', data)
        if isinstance(data, YAMLObject):
            if type(data).yaml_tag is None:
                raise RepresenterError('cannot represent an object')
            return type(data).to_yaml(self, data)
        for t, f in REPRESENTERS:
            if isinstance(data, t):
                return f(self, data)
        raise RepresenterError('cannot represent an object')

    def represent_mapping(self, tag, mapping, flow_style=None):
        pairs = list(mapping.items())
        keys = [k for k, _ in pairs]
        out = [(k, self.represent_data(mapping[k])) for k in _yaml.sort_keys(keys)]
        return MappingNode(tag, out)

    def represent_sequence(self, tag, sequence, flow_style=None):
        return SequenceNode(tag, [self.represent_data(x) for x in sequence])

    def represent_scalar(self, tag, value, style=None):
        return ScalarNode(tag, value)

    def represent_float(self, data):
        return ScalarNode('scalar', data)

    def represent_int(self, data):
        return ScalarNode('scalar', data)

    def represent_str(self, data):
        return ScalarNode('scalar', data)

    def represent_bool(self, data):
        return ScalarNode('scalar', data)

    def represent_none(self, data):
        return ScalarNode('scalar', None)

    def represent_list(self, data):
        return self.represent_sequence('seq', data)

    def represent_dict(self, data):
        return self.represent_mapping('map', data)

    def represent_yaml_object(self, tag, data, cls, flow_style=None):
        if _yaml.defines(data, '__getstate__'):
            state = data.__getstate__()
        else:
            state = data.__dict__
            if len(state) == 0:
                state = None
        if state is None:
            raise TypeError("'NoneType' object is not iterable")
        return self.represent_mapping(tag, state, flow_style=flow_style)


class SafeLoader:
    def __init__(self, stream=None):
        self.stream = stream

    @classmethod
    def add_constructor(cls, tag, f):
        CONSTRUCTORS.append((tag, f))

    def construct_object(self, node, deep=False):
        if node.tag == 'scalar':
            return node.value
        if node.tag == 'map':
            return self.construct_mapping(node, deep=True)
        if node.tag == 'seq':
            return self.construct_sequence(node, deep=True)
        for tag, f in CONSTRUCTORS:
            if tag == node.tag:
                return f(self, node)
        cls = _yaml.class_for(node.tag)
        if cls is None:
            raise ConstructorError('could not determine a constructor for the tag ' + node.tag)
        return cls.from_yaml(self, node)

    def construct_mapping(self, node, deep=False):
        return dict([(k, self.construct_object(v, deep=True)) for k, v in node.value])

    def construct_sequence(self, node, deep=False):
        return [self.construct_object(v, deep=True) for v in node.value]

    def construct_scalar(self, node):
        return node.value

    def construct_yaml_object(self, node, cls):
        data = cls.__new__(cls)
        state = self.construct_mapping(node, deep=True)
        if hasattr(data, '__setstate__'):
            data.__setstate__(state)
        else:
            for k, v in state.items():
                setattr(data, k, v)
        return data


class Document:
    """what stands for the text of a dumped document"""
    def __init__(self, node):
        self.node = node


def safe_dump(data, stream=None, **kw):
    dumper = SafeDumper(_Buffer() if stream is None else stream)
    if hasattr(stream, 'name'):
        make_dir(parent(stream.name), True, True)
    node = dumper.represent_data(data)
    if stream is None:
        return Document(node)
    stream.document = Document(node)
    return None


def safe_load(stream):
    if isinstance(stream, Document):
        return SafeLoader(None).construct_object(stream.node)
    return SafeLoader(stream).construct_object(stream.document.node)


def dump(data, stream=None, Dumper=None, **kw):
    return safe_dump(data, stream)


def load(stream, Loader=None):
    return safe_load(stream)


PLAIN = {}          # files written without the index


def cell(x, digits):
    return round(x, digits) if isinstance(x, float) else x


def write_csv(frame, path, index=True, float_format=None):
    if parent(path) not in DIRS:
        raise OSError('Cannot save file into a non-existent directory')
    frame = pd.DataFrame(frame)
    if float_format is not None:
        if not isinstance(float_format, str) or float_format[:2] != '%.' or float_format[-1] != 'f':
            raise NotImplementedError('float_format')
        digits = int(float_format[2:-1])
        frame = pd.DataFrame({k: [cell(x, digits) for x in v] for k, v in frame._cols.items()}, index=frame.index.to_list())
    FILES[str(path)] = frame
    PLAIN[str(path)] = not index


def read_csv(path, index_col=None, float_precision=None, engine=None):
    if str(path) not in FILES:
        raise FileNotFoundError(str(path))
    frame = FILES[str(path)]
    if float_precision != 'round_trip' and engine != 'python' and not PLAIN.get(str(path)):     # plain files stand for the data of the package as they are read
        frame = pd.DataFrame({k: [np.inexactly_parsed(x) if isinstance(x, (int, float)) else x for x in v] for k, v in frame._cols.items()}, index=frame.index.to_list())
    if PLAIN.get(str(path)):
        if index_col is not None:
            raise NotImplementedError('index_col')
        return pd.DataFrame({k: list(v) for k, v in frame._cols.items()})
    if index_col is not None and not isinstance(index_col, list) and index_col == 0:
        return pd.DataFrame(frame)
    whole = pd.DataFrame(dict([('Unnamed: 0', frame.index.to_list())] + [(k, list(v)) for k, v in frame._cols.items()]))
    if index_col is None or index_col is False:
        return whole
    if isinstance(index_col, list) or isinstance(index_col, str) or index_col < 0 or index_col >= len(whole.columns):
        raise NotImplementedError('index_col')
    names = list(whole.columns)
    return pd.DataFrame({k: list(whole[k]) for k in names if k != names[index_col]}, index=list(whole[names[index_col]]))
