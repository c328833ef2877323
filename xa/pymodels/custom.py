"""What an application registers; interpreted, never run."""
from ndg.xacml.core import XacmlCoreBase
from ndg.xacml.core.attributevalue import AttributeValue
from ndg.xacml.core.functions import AbstractFunction
from ndg.xacml.parsers.etree.attributevaluereader import ETreeDataTypeReaderBase
from ndg.xacml.parsers.etree.reader import ETreeAbstractReader


class ValueA(AttributeValue):
    TYPE = str
    IDENTIFIER = 'urn:custom:type'


class ValueB(AttributeValue):
    TYPE = str
    IDENTIFIER = 'urn:custom:type'


class FunctionA(AbstractFunction):
    FUNCTION_NS = 'urn:custom:function'

    def evaluate(self, *inputs):
        return True


class FunctionB(FunctionA):
    pass


class FactoryA(object):
    def __call__(self, identifier):
        return FunctionA


class FactoryB(object):
    def __call__(self, identifier):
        return FunctionB


class FactoryNone(object):
    def __call__(self, identifier):
        return None


class FactoryOther(object):
    def __call__(self, identifier):
        return Plain


class FactoryRaises(object):
    def __call__(self, identifier):
        raise ValueError(identifier)


class DataReaderA(ETreeDataTypeReaderBase):
    pass


class DataReaderB(ETreeDataTypeReaderBase):
    pass


class ModelA(XacmlCoreBase):
    pass


class ModelB(ModelA):
    pass


class ReaderA(ETreeAbstractReader):
    TYPE = ModelA

    def __call__(self, obj, common):
        return None


class ReaderB(ReaderA):
    pass


class Plain(object):
    pass
