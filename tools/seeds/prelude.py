PRELUDE = r'''
import ast, os, sys, tempfile
sys.path.insert(0, os.getcwd())
from graphql import build_schema
from turms.config import GeneratorConfig, GraphQLProject
from turms.run import generate_ast, instantiate
from turms.plugins.enums import EnumsPlugin, EnumsPluginConfig
from turms.plugins.inputs import InputsPlugin, InputsPluginConfig
from turms.plugins.objects import ObjectsPlugin, ObjectsPluginConfig
from turms.plugins.fragments import FragmentsPlugin, FragmentsPluginConfig
from turms.plugins.operations import OperationsPlugin, OperationsPluginConfig
from turms.plugins.funcs import FuncsPlugin, FuncsPluginConfig, FunctionDefinition
from turms.stylers.default import DefaultStyler
from turms.stylers.capitalize import CapitalizeStyler
from turms.stylers.snake_case import SnakeCaseStyler

_tmp = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, _tmp)
def docs(text, name="ops.graphql"):
    d = tempfile.mkdtemp(dir=_tmp)
    if isinstance(text, str): text = {name: text}
    for k, v in text.items():
        with open(os.path.join(d, k), "w", encoding="utf-8") as f: f.write(v)
    return os.path.join(d, "*.graphql")
def gen(schema, document=None, plugins=None, stylers=(), funcs=None, objects=False, operations=None, inputs=None, enums=None, fragments=None, **cfg):
    schema = build_schema(schema)
    config = GeneratorConfig(documents=docs(document) if document else None, **cfg)
    if plugins is None:
        plugins = [EnumsPlugin(config=EnumsPluginConfig(**(enums or {}))), InputsPlugin(config=InputsPluginConfig(**(inputs or {})))]
        if objects: plugins.append(ObjectsPlugin(config=ObjectsPluginConfig()))
        if document: plugins += [FragmentsPlugin(config=FragmentsPluginConfig(**(fragments or {}))), OperationsPlugin(config=OperationsPluginConfig(**(operations or {})))]
        if funcs: plugins.append(FuncsPlugin(config=FuncsPluginConfig(**funcs)))
    tree = generate_ast(config, schema, stylers=list(stylers), plugins=plugins)
    return ast.unparse(ast.fix_missing_locations(ast.Module(body=tree, type_ignores=[])))
def cls(code, name):
    for n in ast.walk(ast.parse(code)):
        if isinstance(n, ast.ClassDef) and n.name == name: return n
    raise AssertionError("class %s missing in\n%s" % (name, code))
def field(code, name, attr):
    for n in cls(code, name).body:
        if isinstance(n, ast.AnnAssign) and n.target.id == attr: return ast.unparse(n.annotation)
    raise AssertionError("no field %s in %s" % (attr, name))
def value(code, name, attr):
    for n in cls(code, name).body:
        if isinstance(n, ast.AnnAssign) and n.target.id == attr: return ast.unparse(n.value) if n.value else None
    raise AssertionError("no field %s in %s" % (attr, name))
'''
