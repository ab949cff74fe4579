from contracts.base import C,PROPS,NOTES,GENERAL_ASSUMPTIONS,LATE,LEMMAS,OVER,contracts_for
from contracts import common, removal, conflicts, rules, records
from contracts import meta
from contracts import text
from contracts import procs
from contracts import fileutil
from contracts import repo
from contracts import locking
from contracts import install
from contracts import lists
from contracts import marks
from contracts import needed
from contracts import load
from contracts import inuse
from contracts import report
from contracts import upgrade
from contracts import signing
from contracts import unpack
from contracts import rootonly
from contracts import levels

NA={}
