"""C13: tagging a message adds exactly one annotation."""
from specs.c13 import *
view = View('C13b', [with_annotation], fields=runtime_fields(), stable=STABLE, classes=CLASSES)
LEMMAS = []
