"""File name patterns"""
import glob as _glob


@of("daeso.utils.opsys.glob", props=["C53"], types={"pattern": "str"})
def glob(pattern):
    return sorted(_glob.glob(pattern))


@of("daeso.utils.opsys.multiglob", props=["C53"], types={"patterns": "list[str]"})
def multiglob(patterns):
    return sorted([fn for pattern in patterns for fn in _glob.glob(pattern)])
