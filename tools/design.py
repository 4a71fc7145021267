"""writes the section Properties of DESIGN.md (texts of properties.jsonl, MANIFEST.json and the modules)"""
import json,re,glob,sys
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(ROOT+'/properties.jsonl')]
M={c['property']:c for c in json.load(open(ROOT+'/MANIFEST.json'))['checks']}
NOTE='Generated-input search, no proof: a violation outside the generated shapes or rarer than the number of cases can be missed. '
WHY={
'P01':'precedence, unary minus, spacing and name/function separation interact; only many random trees meet each combination.',
'P02':'argument kinds, key order and nested brackets combine freely.',
'P03':'every mix of positional, named and omitted arguments against every signature is a product space.',
'P04':'errors of a formula show for some parameters and points only (shape below one, the border of the support).',
'P05':'a law cannot be read from a few draws; hundreds of draws in hundreds of parameterisations are tested.',
'P06':'each parameter of each family has its own border, written or computed.',
'P07':'frequencies under wide, impossible or undefined weights.',
'P08':'graph queries differ only on particular shapes (diamonds, several components, shuffled listings).',
'P09':'screening off fails only with particular routes around the given nodes.',
'P10':'an edit can be right alone and wrong after another one.',
'P11':'line order, redefinitions, undeclared causes and spacing interact.',
'P12':'printing loses something only for particular definitions (texts, defaults, descriptions, open networks).',
'P13':'aliasing between copies is visible only after edits; JSON fails only for particular values.',
'P14':'stale edges or caches appear only after redefinition, rejection, completion and reopening in some order.',
'P15':'override, orphaned exogenous variables and edges of both networks interact.',
'P16':'the same with the choice to override and mere mentions.',
'P17':'screening and randomness depend on paths.',
'P18':'independence and law given the sampled parents need many samples of many networks.',
'P19':'what is needed depends on the paths and what is given.',
'P20':'errors show only for partial, impossible or perturbed values.',
'P21':'stale values after an intervention depend on depth, order and history.',
'P22':'allocations depend on the network, the tree of groups and both kinds of requests.',
'P23':'consistency along every path and independence of siblings.',
'P24':'staleness depends on the place of the intervention, on samplers and on former interventions.',
'P25':'the law of a sampler depends on what is fixed above, shared or updated.',
'P26':'links and values after several operations on the tree.',
'P27':'leftover records depend on the history of steps and resets.',
'P28':'borders, one-sided domains and extreme points.',
'P29':'each kind of target has its own formula, sign and border.',
'P30':'which parameters are free depends on the whole network and what is given.',
'P31':'aliasing shows after histories of copies.',
'P32':'ties, failing simulations, quantiles and batch sizes interact; the law of the posterior is statistical.',
'P33':'the same over several rounds with weights and restarts.',
'P34':'the same over waves, with emulators whose outcome decides.',
'P35':'laws of selections and borders of mutations.',
'P36':'conditioning in sequence, zero weights and missing rows.',
'P37':'row order, uneven times, times beyond both ends.',
'P38':'mixtures of regressors, offsets and link functions.',
'P39':'hazards beyond tables, inverses, covariates, inflation.',
'P40':'registered names meet parsing, evaluation, JSON and hierarchies.',
'P41':'outputs of the examples are never compared with anything.',
'P42':'what floats depends on the whole network.',
'P43':'order that depends on hashing shows only between interpreters.',
'P44':'clashes of names and leaks between unrelated parts need particular names and shapes.',
'P45':'shared or private state shows only in draws and edits after the copy.',
'P46':'shortcuts, limits of depth and blow-ups show only from some size or some shape on.',
'P47':'what workers share matters only under particular schedules.',
}
out=[]
for p in P:
    mod=glob.glob(ROOT+'/harness/props/%s_*.py'%p['id'].lower())[0]
    s=open(mod).read()
    m=re.search(r"^RULE = (\(.*?\)|'.*?')\n(?=\S|\n)",s,re.S|re.M)
    rule=eval(m.group(1))
    fac=re.findall(r"Facet\('([^']+)'.*?, (\d+), (\d+)",s)
    if not fac: fac=[('see module','','')]
    m=M[p['id']]
    note=m['level_note'].replace(NOTE,'').replace(NOTE.strip(),'')
    out.append('**%s %s.** `harness/props/%s`\n  Explored: %s.\n  Oracle: %s.%s\n  Cases (quick / thorough): %s.\n  Beyond the tests: %s\n'%(p['id'],p['title'],mod.split('/')[-1],rule,m['technique'].split(': ')[-1].split('testing ')[-1],(' Bounds: '+note) if note else '',', '.join('%s %s / %s'%f for f in fac),WHY[p['id']]))
d=open(ROOT+'/DESIGN.md').read()
a=d.index('For each: the cases explored'); a=d.index('\n',a)+1
b=d.index('## Out of the domain')
d=d[:a]+'\n'.join(out)+'\n'+d[b:]
rows={}
for f in sorted(glob.glob(ROOT+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.setdefault(m['property'],[]).append('`%s` (%s)'%(f.split('/')[-2],m['what_it_breaks']))
tab='\n'.join('* %s: %s.'%(k,'; '.join(v)) for k,v in sorted(rows.items()))+'\n'
i=d.index('now:\n\n',d.index('## Planted changes'))+6; j=d.index('A campaign of about',i)
d=d[:i]+tab+'\n'+d[j:]
open(ROOT+'/DESIGN.md','w').write(d)
