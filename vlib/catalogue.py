"""names of the robots in the catalogue: those of the pinned tree, and whatever the catalogue itself lists"""
from . import env

PINNED = ['Puma', 'Pumaoffset', 'Chair_Helper', 'Bartell', 'Brad', 'Sims11', 'ArmRobo', 'Wrist', 'Arm_3', 'MiniDD', 'Olson13', 'Stanford',
          'Khat6DOF', 'Craig417', 'KawasakiRS05L', 'KawasakiRS007L', 'Raven-II', 'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13',
          'Mackler13', 'Axtman13', 'Srisuan11', 'ICP5p5_A21', 'KR16', 'Issue4', 'UR5', 'DZhang', 'JennyGuoSp24']


def listed(name='no such robot'):
    """(lines printed, whether it was refused) when asking for an unknown robot"""
    import ikbtfunctions.ik_robots as ikr
    refused = False
    with env.captured() as out:
        try:
            ikr.robot_params(name)
        except (SystemExit, Exception):
            refused = True
    return [l.strip() for l in out.getvalue().splitlines() if l.strip()], refused


def names():
    ls, _ = listed()
    known = list(PINNED)
    start = [i for i, l in enumerate(ls) if l in PINNED]
    if start:
        for l in ls[start[0]:]:
            if l not in known and ' ' not in l:
                known.append(l)
    return known
