"""Writes engine/libnames.json: attribute names of the modelled library classes, so that a use the models lack is reported as undecided and not as an
AttributeError.  Run with an interpreter that has the libraries (plain data about the libraries; nothing of pymgrid is imported)."""
import json, os, collections, pathlib, inspect, random
import numpy as np, pandas as pd, yaml, gym, tqdm
C = {'ndarray': np.ndarray, 'float64': np.float64, 'bool_': np.bool_, 'UserDict': collections.UserDict, 'UserList': collections.UserList, 'defaultdict': collections.defaultdict,
     'Space': gym.spaces.Space, 'Box': gym.spaces.Box, 'Discrete': gym.spaces.Discrete, 'Dict': gym.spaces.Dict, 'Tuple': gym.spaces.Tuple, 'Env': gym.Env,
     'Path': pathlib.Path, 'Parameter': inspect.Parameter, 'Signature': inspect.Signature, 'tqdm': tqdm.tqdm, 'NDFrame': pd.core.generic.NDFrame,
     'Index': pd.Index, 'RangeIndex': pd.RangeIndex, 'MultiIndex': pd.MultiIndex, 'Series': pd.Series, 'DataFrame': pd.DataFrame,
     '_Loc': type(pd.Series([1]).loc), '_ILoc': type(pd.Series([1]).iloc), 'Generator': random.Random, 'Node': yaml.Node, 'MappingNode': yaml.MappingNode,
     'SequenceNode': yaml.SequenceNode, 'ScalarNode': yaml.ScalarNode, 'YAMLObject': yaml.YAMLObject, 'SafeDumper': yaml.SafeDumper, 'SafeLoader': yaml.SafeLoader}
out = {k: sorted(n for n in dir(v) if not n.startswith('_') or n.startswith('__') and n.endswith('__')) for k, v in C.items()}
out['Generator'] = sorted(set(out['Generator']) | set(dir(np.random.RandomState)) | set(dir(np.random.Generator)))
KEEP = {'__repr__', '__str__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'}
drop = set(dir(object))
out = {k: [n for n in v if n not in drop or n in KEEP and k in C and getattr(C[k], n, None) is not getattr(object, n)] for k, v in out.items()}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine', 'libnames.json'), 'w'), indent=0)
