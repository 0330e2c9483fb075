"""Profiles of the chart-engine checks."""
from .charts import *

def W(**k): d = dict(tr=5, isr=1, term=0.0, defer=0.0, cust=3); d.update(k); return d
NOHIST = dict(hist=0.0)
HIST = dict(hist=0.6, hinit=0.5, hdest=0.5)
EXC = dict(translator=['none', 'any', 'x0', 'sel', 'sel'], exreact=0.35)
def F(n_, *ds, **k):
    d = dict(dterm=0.15)
    for x in ds: d.update(x)
    d.update(k); return (n_, d)

WIDE = F(3, NOHIST, w=W(tr=6, isr=0.3, term=0.6, cust=3), n=(14, 34), depth=2, orth=0.9, maxreg=12, sibs=(1, 2), action=0.4, tops=(1, 2))      # many regions
DEEP = F(3, deepen=0.8, w=W(tr=6, isr=0.3, term=0.6, cust=3), n=(16, 26), depth=14, orth=0.15, sibs=(1, 2), tops=(1, 2), hist=0.15, hinit=0.4, hdest=0.4, action=0.4)      # many levels
THROW = 'tentry=0.06,texit=0.06,tact=0.08,treact=0.08,tuncons=0.05'
# id -> families, runs (profile, rule, cases per worker), san: also with sanitizers
P = {
 'C01': dict(
   families=[F(22, NOHIST, w=W(tr=3, isr=2, term=0.6, defer=0.8, cust=7), orth=0.6, nev=(2, 4), reacts=(0, 3), evbase=0.06),
             F(8, NOHIST, w=W(tr=2, isr=1.5, term=0.8, cust=8), n=(10, 18), orth=0.8, nev=(2, 3), reacts=(0, 2)),
             F(6, HIST, EXC, w=W(tr=4, isr=2, term=0.8, defer=0.5, cust=7), orth=0.5),
             WIDE, DEEP],
   runs=[Run('hooks=0.2,post=0.15,rF=5,rX=0.6,rD=0.6,rZ=0.4,rT=1.5,oI=0.3,oT=0.3', 'nextleaf,forward+outward,uncons+outward', 9000),
         Run('hooks=0.35,post=0.3,rF=3,rX=0.6,rD=0.9,rZ=0.5,rT=3,oI=0.3,oT=0.3,treact=0.03,tact=0.03', 'nextleaf,forward+outward,uncons+outward', 5000)],
   rule='a case = random chart, random behaviour tables for its hooks, random history of operations; non-trivial: a reaction search went past its first state (forwarded, outward, or to another innermost state) and either reached a further region or ended unconsumed'),
 'C02': dict(
   families=[F(24, NOHIST, w=W(tr=3, isr=3, term=0.8, defer=1, cust=4), orth=0.35, nev=(2, 4), reacts=(2, 7), evbase=0.15, single=0.2),
             F(8, NOHIST, w=W(tr=3, isr=3, term=1, defer=1, cust=4), reacts=(1, 1), single=0.8, evbase=0.2, nev=(2, 3)),
             F(4, NOHIST, w=W(tr=4, isr=4, term=0.5, defer=0.7, cust=5), n=(4, 6), orth=0.2, nev=(4, 6), reacts=(8, 14), evbase=0.04)],
   runs=[Run('hooks=0.15,post=0.1,rF=2.5,rX=1,rD=0.8,rZ=0.6,rT=2,oI=0.4,oT=0.2', 'dupmatch,listpos,evbase', 12000)],
   rule='non-trivial: an executed reaction was not the first in its list, was declared for the event base class, or had a later matching reaction behind it'),
 'C03': dict(
   families=[F(20, NOHIST, w=W(tr=6, isr=0.4, term=0.3, cust=3), n=(8, 16), depth=5, orth=0.5, action=0.3, tops=(1, 2)),
             F(8, NOHIST, w=W(tr=6, isr=0.2, cust=3, term=0.3), n=(12, 24), depth=6, orth=0.3, sibs=(1, 2), tops=(1, 1)),
             F(6, NOHIST, w=W(tr=6, isr=0.2, cust=3), n=(10, 20), depth=3, orth=0.95, maxreg=5, sibs=(1, 2)),
             F(8, w=W(tr=6, isr=0.2, term=0.3, cust=3), hist=0.7, hinit=0.3, hdest=0.6, n=(8, 18), depth=5, orth=0.6, sibs=(1, 3)),
             WIDE, DEEP],
   runs=[Run('hooks=0.1,post=0.1,rT=8,rX=0.5,rF=0.7,rZ=0.2,oI=1,oT=0.2', 'orthenter+cross,orthdest,deepenter', 9000)],
   rule='non-trivial: a transition entered several regions across a common context, entered a region off its path, or entered at least three states of one path'),
 'C04': dict(
   families=[F(18, NOHIST, w=W(tr=6, isr=0.4, term=0.5, cust=3), n=(8, 16), depth=5, orth=0.55, action=0.6, tops=(1, 2)),
             F(8, NOHIST, w=W(tr=6, term=0.4, cust=4), n=(12, 22), depth=6, orth=0.3, sibs=(1, 3), action=0.6),
             F(6, NOHIST, w=W(tr=6, term=0.4, cust=4), n=(10, 20), depth=3, orth=0.95, maxreg=5, sibs=(1, 2), action=0.6),
             F(6, w=W(tr=6, term=0.4, cust=4), hist=0.7, hinit=0.3, hdest=0.5, n=(8, 18), depth=5, orth=0.6, action=0.6),
             WIDE, DEEP],
   runs=[Run('hooks=0.15,post=0.12,rT=8,rX=0.5,rF=0.7,rZ=0.4,oI=0.4,oT=0.6', 'orthexit+exitorder3,regionlocal,actouter+cross', 9000)],
   rule='non-trivial: a transition exited at least three states over several regions, stayed inside one region of its common context, or ran an action on an outer context across a common context'),
 'C05': dict(
   families=[F(20, HIST, w=W(tr=5, isr=0.5, term=1, cust=4), orth=0.6, queries=True, tags=0.5),
             F(8, NOHIST, w=W(tr=4, term=1.2, cust=4), n=(9, 16), orth=0.8, queries=True, tags=0.3),
             F(4, HIST, EXC, w=W(tr=5, term=1, cust=4), orth=0.5, queries=True, tags=0.4),
             WIDE, DEEP],
   runs=[Run('hooks=0.35,post=0.12,query=0.5,queries=1,rT=4,rZ=1,oI=0.4,oT=0.5,oK=0.3', 'query,querymidleaf,orthleaves3,emptyregion', 1500),
         Run('hooks=0.3,post=0.1,query=0.3,queries=1,rT=4,rZ=0.7,oI=0.4,oT=0.5,restart=0.2,' + THROW, 'query,querymidleaf,orthleaves3,emptyregion,exchandled', 700)],
   builds=['std', 'native'],
   rule='non-trivial: queried inside a reaction, or while a transition is under way with other innermost states active, with three or more innermost states, or with a terminated region'),
 'C06': dict(
   families=[F(14, NOHIST, w=W(tr=3, isr=0.3, term=3, cust=4), orth=0.3, depth=5, sibs=(1, 2)),
             F(12, NOHIST, w=W(tr=2.5, term=3, cust=4), orth=0.7, n=(8, 16), depth=4),
             F(6, HIST, w=W(tr=3, term=2.5, cust=4, defer=0.5), orth=0.5),
             WIDE, DEEP],
   runs=[Run('hooks=0.2,post=0.2,rT=2.5,rZ=3,rF=1,rX=0.5,oI=0.5,oT=0.3,restart=0.15', 'term+orthexit,termcascade,emptyregion', 10000)],
   rule='non-trivial: a termination ended a state with several regions, emptied a region next to a live one, or cascaded to outer states'),
 'C07': dict(
   families=[F(20, NOHIST, w=W(tr=5, isr=2, term=0.4, cust=4), orth=0.4, action=0.7),
             F(8, HIST, w=W(tr=5, isr=2, term=0.4, cust=4, defer=0.4), orth=0.5, action=0.7),
             F(6, EXC, w=W(tr=5, isr=2, term=0.4, cust=4, defer=0.3), orth=0.4, action=0.7)],
   runs=[Run('hooks=0.6,post=0.5,rT=4,oI=0.8,oT=0.5,oP=2.5', 'posted2+nestpost,postinit,postuncons', 8000),
         Run('hooks=0.5,post=0.45,rT=4,oI=0.8,oT=0.5,oP=2,restart=0.2,leak=1,' + THROW, 'posted2+nestpost,postinit,postuncons,qdropped', 3500)],
   rule='non-trivial: two or more events queued at once with events posted while posted events were processed, or events posted during initiation or from the unconsumed-event handler'),
 'C08': dict(
   families=[F(20, NOHIST, w=W(tr=5, isr=0.7, term=0.6, defer=3, cust=4), orth=0.4, evbase=0.05),
             F(8, HIST, w=W(tr=5, term=0.6, defer=3, cust=4), orth=0.5),
             F(8, EXC, w=W(tr=5, term=0.6, defer=3, cust=4), orth=0.4)],
   runs=[Run('hooks=0.4,post=0.35,rT=3,rD=3,oI=0.4,oT=0.4,oP=1', 'release2,release+relfront,redefer,norelease', 8000),
         Run('hooks=0.4,post=0.3,rT=3,rD=3,oI=0.4,oT=0.4,oP=1,restart=0.15,leak=1,' + THROW, 'release2,release+relfront,redefer,norelease', 3500)],
   rule='non-trivial: at least two deferred events were released at once, released in front of waiting events, deferred again, or a non-deferring state was left while events were deferred'),
 'C10': dict(
   families=[F(18, NOHIST, w=W(tr=6, isr=0.3, term=0.3, cust=3), hist=0.7, histmodes=[1, 3], hinit=0.6, hdest=0.6, orth=0.4, n=(7, 14), depth=5),
             F(10, NOHIST, w=W(tr=6, term=0.3, cust=3), hist=0.8, histmodes=[1], hinit=0.7, hdest=0.7, orth=0.7, n=(8, 16), sibs=(2, 4)),
             F(6, EXC, w=W(tr=6, term=0.6, cust=3, defer=0.3), hist=0.7, histmodes=[1, 3], hinit=0.6, hdest=0.6),
             F(3, deepen=0.7, w=W(tr=6, term=0.4, cust=3), n=(16, 26), depth=12, orth=0.1, sibs=(1, 3), tops=(1, 2), hist=0.5, hinit=0.6, hdest=0.6), F(3, w=W(tr=6, term=0.4, cust=3), n=(14, 30), depth=3, orth=0.8, maxreg=8, sibs=(1, 3), hist=0.8, histmodes=[1], hinit=0.6, hdest=0.6)],
   runs=[Run('hooks=0.15,post=0.15,clear=0.25,rT=7,rZ=0.5,oI=0.15,oT=0.1,oC=0.5,opsmax=40', 'shrestore', 6500),
         Run('hooks=0.25,post=0.15,clear=0.2,rT=7,rZ=0.5,oI=0.2,oT=0.2,oC=0.5,restart=0.1,opsmax=32,' + THROW, 'shrestore', 4000)],
   rule='non-trivial: a shallow history entry restored a state different from its default'),
 'C11': dict(
   families=[F(20, NOHIST, w=W(tr=6, isr=0.3, term=0.3, cust=3), hist=0.5, histmodes=[2, 3], hinit=0.6, hdest=0.6, orth=0.25, n=(8, 16), depth=6),
             F(10, NOHIST, w=W(tr=6, term=0.3, cust=3), hist=0.8, histmodes=[2], hinit=0.7, hdest=0.7, orth=0.1, n=(8, 16), depth=6, sibs=(2, 3)),
             F(6, EXC, w=W(tr=6, term=0.6, cust=3, defer=0.3), hist=0.7, histmodes=[2, 3], hinit=0.6, hdest=0.6, orth=0.2),
             F(3, deepen=0.7, w=W(tr=6, term=0.4, cust=3), n=(16, 26), depth=12, orth=0.1, sibs=(1, 3), tops=(1, 2), hist=0.5, hinit=0.6, hdest=0.6)],
   runs=[Run('hooks=0.15,post=0.15,clear=0.25,rT=7,rZ=0.5,oI=0.15,oT=0.1,oC=0.5,opsmax=40', 'dhrestore', 6500),
         Run('hooks=0.25,post=0.15,clear=0.2,rT=7,rZ=0.5,oI=0.2,oT=0.2,oC=0.5,restart=0.1,opsmax=32,' + THROW, 'dhrestore', 4000)],
   rule='non-trivial: a deep history entry restored an innermost state different from its default'),
 'C12': dict(
   families=[F(20, NOHIST, w=W(tr=6, isr=0.7, term=0.4, cust=3), hist=0.8, hinit=0.7, hdest=0.6, orth=0.4, n=(7, 14), depth=5, action=0.6),
             F(8, NOHIST, w=W(tr=6, term=0.4, cust=3), hist=0.9, histmodes=[3], hinit=0.7, hdest=0.6, orth=0.3, n=(7, 14), sibs=(2, 3)),
             F(6, EXC, w=W(tr=6, term=0.6, cust=3), hist=0.8, hinit=0.7, hdest=0.6, orth=0.3),
             F(3, deepen=0.7, w=W(tr=6, term=0.4, cust=3), n=(16, 26), depth=12, orth=0.1, sibs=(1, 3), tops=(1, 2), hist=0.5, hinit=0.6, hdest=0.6), F(3, w=W(tr=6, term=0.4, cust=3), n=(14, 30), depth=3, orth=0.8, maxreg=8, sibs=(1, 3), hist=0.8, histmodes=[1], hinit=0.6, hdest=0.6)],
   runs=[Run('hooks=0.3,post=0.1,clear=0.35,rT=7,rZ=0.5,oI=0.5,oT=0.5,oC=2.5,opsmax=40', 'clearhit+histafterclear,histdropped+restart', 6500),
         Run('hooks=0.25,post=0.1,clear=0.2,rT=7,rZ=0.5,oI=0.3,oT=0.3,oC=1,restart=0.2,opsmax=32,' + THROW, 'clearhit+histafterclear,histdropped+restart', 4000)],
   rule='non-trivial: an existing history was cleared and its history entry used afterwards, or history was dropped by a restart'),
 'C13': dict(
   families=[F(18, HIST, w=W(tr=5, isr=1.5, term=0.6, defer=0.7, cust=4), orth=0.5, action=0.7, n=(6, 13)),
             F(8, HIST, w=W(tr=5, isr=1.5, term=0.6, defer=0.7, cust=4), orth=0.7, action=0.7, n=(8, 16), depth=5),
             F(8, HIST, EXC, w=W(tr=5, isr=1.5, term=0.6, defer=0.7, cust=4), orth=0.5, action=0.7),
             WIDE, DEEP],
   runs=[Run('hooks=0.4,post=0.25,clear=0.1,rT=5,oI=0.6,oT=0.6,oK=0.2,restart=0.3,leak=1,queries=0,' + THROW, 'excunhandled', 7000)],
   san=([Run('hooks=0.4,post=0.25,clear=0.1,rT=5,oI=0.6,oT=0.6,oK=0.2,restart=0.3,leak=1,' + THROW, 'excunhandled', 700)], 10),
   rule='non-trivial: an exception from user code was not handled'),
 'C14': dict(
   families=[F(22, HIST, w=W(tr=6, isr=1, term=0.7, defer=0.5, cust=4), translator=['any', 'x0', 'sel', 'sel'], exreact=0.5, orth=0.45, action=0.7, n=(6, 12), reacts=(2, 5)),
             F(8, NOHIST, w=W(tr=6, isr=1, term=0.7, defer=0.5, cust=4), translator=['any', 'sel'], exreact=0.6, orth=0.3, n=(6, 14), depth=5, action=0.7, reacts=(2, 5)),
             F(6, NOHIST, w=W(tr=4, isr=1, term=1.5, defer=1, cust=5), translator=['any', 'x0', 'sel'], exreact=0.5, orth=0.7, action=0.7, evbase=0.15),
             WIDE, DEEP],
   runs=[Run('hooks=0.35,post=0.2,rT=5,oI=0.6,oT=0.6,restart=0.25,' + THROW, 'exchandled,excstillunstable,excnested,excdeferred,excnotranslated', 8000),
         Run('hooks=0.25,post=0.1,rT=5,oI=0.3,oT=0.3,restart=0.3,treact=0.3,tact=0.25,tentry=0.1,texit=0.1', 'exchandled,excstillunstable,excnested,excdeferred', 4000)],
   rule='non-trivial: an exception event was handled, or found a reaction that left the machine unstable, deferred it, or threw again, or the translator let the exception pass'),
 'C15': dict(
   families=[F(18, HIST, dterm=0.4, w=W(tr=6, isr=0.5, term=1, cust=4, defer=0.4), orth=0.55, n=(7, 14), depth=5, tags=0.2),
             F(12, HIST, EXC, dterm=0.4, w=W(tr=6, isr=0.7, term=1, cust=4, defer=0.4), orth=0.5, n=(6, 12), tags=0.2),
             WIDE, DEEP],
   runs=[Run('hooks=0.3,post=0.2,rT=5,rZ=1,oI=0.6,oT=1,oK=1', 'orthexit+exitorder3,destroybusy', 6000),
         Run('hooks=0.35,post=0.15,rT=5,rZ=1,oI=0.6,oT=1,oK=0.6,restart=0.25,tentry=0.12,texit=0.15,tact=0.04,treact=0.04', 'excexit,excentry,destroybusy', 5000)],
   san=([Run('hooks=0.35,post=0.15,rT=5,rZ=1,oI=0.6,oT=1,oK=0.6,restart=0.25,tentry=0.12,texit=0.15,tact=0.04,treact=0.04', 'excexit,excentry,destroybusy', 600)], 8),
   rule='non-trivial: several states of several regions were exited in one step, a running machine was destroyed, or an exit action or constructor threw'),
 'C16': dict(
   families=[F(16, HIST, dterm=0.4, w=W(tr=5, isr=1, term=1, cust=4, defer=1), orth=0.5, action=0.6),
             F(14, HIST, EXC, dterm=0.4, w=W(tr=5, isr=1, term=1, cust=4, defer=1), orth=0.5, action=0.6)],
   runs=[Run('hooks=0.4,post=0.35,clear=0.1,rT=4,oI=4,oT=4,oK=2,oP=2,oC=0.5,noinit=0.3,leak=1', 'restart+qdropped,restartbusy,destroybusy', 6000),
         Run('hooks=0.35,post=0.25,clear=0.1,rT=4,oI=4,oT=3,oK=1,oP=1,noinit=0.2,leak=1,' + THROW, 'restart+qdropped,restartbusy,destroybusy,initrecovered', 5000)],
   rule='non-trivial: a running machine was initiated again or destroyed, or restarted with events still queued'),
 'C17': dict(
   families=[F(18, NOHIST, w=W(tr=5, isr=2, term=0.6, cust=4, defer=1.2), orth=0.5, action=0.8),
             F(14, HIST, EXC, w=W(tr=5, isr=2, term=0.6, cust=4, defer=0.8), orth=0.45, action=0.8)],
   runs=[Run('hooks=0.4,post=0.3,rT=4,rD=1,oI=1,oT=1,oP=0.5', 'posted+release,nestpost', 7000),
         Run('hooks=0.4,post=0.25,rT=4,rD=1,oI=1,oT=1,restart=0.2,' + THROW, 'exchandled,posted+release,excunhandled+restart', 5000)],
   rule='non-trivial: posted or released events were processed one after another, or an exception event was processed'),
 'C18': dict(
   families=[F(20, HIST, w=W(tr=6, isr=1, term=0.6, cust=4), orth=0.5, n=(7, 15), depth=6, tags=0.4, simple=0.2, action=0.8),
             F(10, HIST, EXC, w=W(tr=6, isr=1, term=0.6, cust=4), orth=0.5, tags=0.4, simple=0.2, action=0.8),
             WIDE, DEEP],
   runs=[Run('hooks=0.25,post=0.15,rT=5,oI=0.5,oT=0.5,oK=0.5', 'cross+action,selftr,deepenter', 7000),
         Run('hooks=0.25,post=0.15,rT=5,oI=0.5,oT=0.5,oK=0.5,restart=0.2,' + THROW, 'cross+action,selftr,deepenter,exchandled', 3500)],
   san=([Run('hooks=0.25,post=0.15,rT=5,oI=0.5,oT=0.5,oK=0.5', 'cross+action,selftr,deepenter', 600)], 8),
   rule='non-trivial: transitions across states with actions on outer contexts, re-entry of a state, or entry of three or more states of a path'),
 'C22': dict(
   families=[F(20, NOHIST, w=W(tr=6, isr=0.5, term=0.4, cust=4), relaxed=True, action=0.85, orth=0.5, n=(6, 13), depth=5),
             F(10, NOHIST, w=W(tr=6, term=0.4, cust=4), relaxed=True, action=0.9, orth=0.2, n=(6, 12), depth=6, sibs=(1, 2)),
             F(6, HIST, w=W(tr=6, term=0.4, cust=4, defer=0.5), relaxed=True, action=0.85, orth=0.5)],
   runs=[Run('hooks=0.2,post=0.15,rT=7,oI=0.4,oT=0.3', 'relaxedmid,relaxedsrc+orthexit,relaxedin+cross', 9000)],
   builds=['relax'],
   rule='non-trivial: an action ran on the source state or an outer state inside the innermost common context'),
 'C23': dict(
   families=[F(16, HIST, w=W(tr=5, isr=1, term=0.6, cust=4, defer=0.8), orth=0.5, action=0.6),
             F(12, HIST, EXC, w=W(tr=5, isr=1, term=0.6, cust=4, defer=0.8), orth=0.4, action=0.6)],
   runs=[Run('nmach=3,shared=1,nest=0.3,hooks=0.4,post=0.25,clear=0.1,rT=4,oI=0.6,oT=0.5,oK=0.4,oP=0.6,leak=1,opsmax=36', 'nested+multi', 2500),
         Run('nmach=3,difftopo=1,shared=1,nest=0.3,hooks=0.4,post=0.25,rT=4,oI=0.6,oT=0.5,oK=0.4,oP=0.6,leak=1,opsmax=36,restart=0.1,tentry=0.03,texit=0.03,tact=0.03,treact=0.03', 'nested+multi', 1800)],
   rule='non-trivial: three machines, at least one hook of one of them operated on another'),
}

def run_chart_check(ctx):
    p = P[ctx.prop]; ctx.rule = 'case = random chart x random hook behaviour x random operation history, checked against the reference model over the whole trace. ' + p['rule'].replace('a case = random chart, random behaviour tables for its hooks, random history of operations; ', '')
    if ctx.replay: return replay_chart(ctx, ctx.replay)
    mult = 1 if ctx.quick else 4; cmult = 2 if ctx.quick else 5
    for bi, bn in enumerate(p.get('builds', ['std'])):
        fams = p['families']
        nb = len(p.get('builds', ['std']))
        fams = [(max(1, n * mult // (nb if ctx.quick else 1)), kw) for n, kw in fams]
        topos = make_charts(ctx, fams)
        # every fourth chart is built in another configuration
        other = ctx.rng('config', bi).choice(OTHERS_RELAX if bn == 'relax' else OTHERS)
        for b, part, share in ((BUILDS[bn], [t for i, t in enumerate(topos) if i % 4], 1), (other, topos[::4], .35)):
            exe = build_engine(ctx, b, part, 'eng' + b.name)
            runs = [Run(r.prof, r.rule, int(max(200, r.cases * cmult * share // nb))) for r in p['runs']]
            run_engine(ctx, exe, part, b, runs, label=b.name)
            ctx.extra.setdefault('configurations', []).append('%s: %d charts' % (b.name, len(part)))
    if 'san' in p or not ctx.quick:
        runs, n = p.get('san', (None, 10))
        if runs is None: runs = [Run(r.prof, r.rule, max(100, r.cases // 12)) for r in p['runs']]
        if not ctx.quick: runs = [Run(r.prof, r.rule, r.cases * 4) for r in runs]; n *= 3
        fams = p['families']; tot = sum(f[0] for f in fams)
        fams = [(max(1, f[0] * n // tot), f[1]) for f in fams]
        topos = make_charts(ctx, [(k, dict(kw)) for k, kw in fams])
        b = SANRELAX if 'relax' in p.get('builds', []) else SAN
        exe = build_engine(ctx, b, topos, 'engsan')
        run_engine(ctx, exe, topos, b, runs, label='san')
