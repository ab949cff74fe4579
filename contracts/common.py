from contracts.base import *
add(Con('pkgdbh::progressInfo()',mods=(),throws=False,trusted='prints only'))
add(Con('pkgdbh::progressInfo(enum:cards::ActionEnum)',mods=('m_actualAction',),throws=False))
add(Con('checkFileExist(cref(str))',post=lambda c:[('result',Eq(c.ret.t,terms.sel(c.go('fs_ex'),c.a(0).t)))],throws=False))
RT='rec:std::runtime_error'
ERR={n:i for i,n in enumerate(['CANNOT_FIND_DEPOT'])}
def enumval(n):
    for e in core.ENUMS.values():
        if n in e: return e[n] if isinstance(e,dict) else None
NORAISE=('ERROR_ENUM_CANNOT_CREATE_DIRECTORY','ERROR_ENUM_CANNOT_GENERATE_LEVEL','ERROR_ENUM_CANNOT_CHANGE_DIRECTORY','ERROR_ENUM_CANNOT_CHMOD_PRIVATE_KEY_TO_600','ERROR_ENUM_CANNOT_GENERATE_PRIVATE_KEY','ERROR_ENUM_CANNOT_SAVE_PRIVATE_KEY','ERROR_ENUM_CANNOT_SAVE_PUBLIC_KEY','ERROR_ENUM_PRIVATE_KEY_PATH_NOT_DEFINE','ERROR_ENUM_PUBLIC_KEY_NOT_EXIST','ERROR_ENUM_WRONG_SIGNATURE')
def noraise(c):
    from core import ENUMS
    e=ENUMS['cards::ErrorEnum']; e=dict(e) if not isinstance(e,dict) else e
    return [('returns only for errors that are not raised',z3.Or(*[c.o('m_actualError').t==e[n] for n in NORAISE]))]
def enum_range(c):
    from core import ENUMS
    e=ENUMS['cards::ErrorEnum']; e=dict(e) if not isinstance(e,dict) else e
    return [('a listed error',z3.And(c.o('m_actualError').t>=0,c.o('m_actualError').t<len(e)))]
add(Con('pkgdbh::treatErrors(cref(str))c',mods=(),throws=RT,post=noraise,pre=enum_range))
