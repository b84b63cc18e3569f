"""The RenderMan interface as the checks understand it: a snapshot of the
published interface description (spec/ri.xml) turned into request tables."""
import os
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Arg:
    def __init__(self, a):
        self.name = a.findtext('Name')
        self.type = a.findtext('Type')
        self.ranges = []
        for r in a.findall('Range'):
            for c in r:
                self.ranges.append((c.tag, (c.text or '').strip()))
        self.length = a.findtext('Length')
        self.rilength = a.findtext('RiLength')
        self.ribvalue = a.findtext('RibValue')
        self.ribonly = a.find('RibOnly') is not None
        self.altint = a.find('AltTypeInt') is not None


class Proc:
    def __init__(self, p):
        self.name = p.findtext('Name')
        self.cname = p.findtext('CName') or 'Ri' + self.name
        allargs = [Arg(a) for a in p.findall('Arguments/Argument')]
        self.allargs = allargs
        self.args = [a for a in allargs if a.ribvalue is None]     # C++/RIB form
        self.cargs = [a for a in allargs if not a.ribonly]         # C form
        self.plist = p.find('Arguments/ParamList') is not None
        self.plist_optional = p.find('Arguments/ParamList/Optional') is not None
        self.canbearray = p.find('Arguments/RibArgsCanBeArray') is not None
        self.required = [(x.text or '').strip() for x in p.findall('Arguments/ParamList/Param')]
        self.special = p.find('RibSpecial') is not None
        self.iclass = {c.tag: (c.text or '').strip() for c in p.findall('IClassLengths/*')}
        self.has_iclass = p.find('IClassLengths') is not None
        self.scopes = [c.tag for c in p.findall('ValidScope/*')]
        self.has_scopes = p.find('ValidScope') is not None
        self.rettype = p.findtext('ReturnType')


def load():
    t = ET.parse(os.path.join(HERE, 'spec', 'ri.xml'))
    out = []
    for p in t.getroot().findall('Procedures/Procedure'):
        if p.findall('Rib'):
            out.append(Proc(p))
    return out


if __name__ == '__main__':
    for p in load():
        print(p.name, [(a.name, a.type, a.ranges, a.length, a.altint) for a in p.args], p.plist,
              p.plist_optional, 'ARR' if p.canbearray else '', 'SPECIAL' if p.special else '',
              p.iclass, ','.join(p.scopes))
