P = 'gerber/primitives.py'
U = 'gerber/utils.py'
SEEDS = [
    dict(sid='c30_overlap', prop='C30', edits=[(P, "                # The line is defined by the convex hull of the points\n", "                if abs(end[0] - start[0]) < width / 2. and abs(end[1] - start[1]) < height / 2.:\n                    # The ends overlap: what is drawn is one rectangle\n                    (left, right), (low, high) = self.bounding_box\n                    self._vertices = [(left, low), (right, low), (right, high), (left, high)]\n                    return self._vertices\n\n                # The line is defined by the convex hull of the points\n")],
         needs='a sloping line shorter than its rectangle', breaks='short sloping strokes are drawn as their bounding box',
         demo="from gerber.primitives import Line, Rectangle\nv = Line((0., 0.), (.25, .125), Rectangle((0, 0), 1., 1.)).vertices\nassert len(v) == 6, v\nassert set(v) == {(-.5, -.5), (.5, -.5), (-.5, .5), (.75, -.375), (-.25, .625), (.75, .625)}, v\n"),
    dict(sid='c30_nearest', prop='C30', edits=[(U, "        if(d>fdist):\n            fdist=d;\n            farpoint=i\n", "        if(d>fdist or abs(points[i][0]-b_x)<abs(points[farpoint][0]-b_x)):\n            fdist=d;\n            farpoint=i\n"), (U, "    farpoint=-1\n", "    farpoint=-1\n    b_x=points[b_i][0]\n")],
         needs='points given twice or several points on one side', breaks='corners of the hull are missed',
         demo="from gerber.utils import convex_hull\nv = convex_hull([(0., 0.), (1., 0.), (2., 1.), (0., 0.)])\nassert sorted(v) == [(0., 0.), (1., 0.), (2., 1.)], v\nimport math\nring = [(math.cos(.3 + 2 * math.pi * i / 12), math.sin(.3 + 2 * math.pi * i / 12)) for i in range(12)]\nassert len(convex_hull(ring)) == 12\ninner = [(.5 * x, .5 * y) for x, y in ring]\nassert sorted(convex_hull(inner + ring)) == sorted(ring)\nassert sorted(convex_hull(ring[::-1] + inner)) == sorted(ring)\n"),
    dict(sid='c30_wrap_angle', prop='C30', edits=[(U, "            sdiff=slopecx-slopecb\n            if(sdiff<-pi):sdiff+=2*pi\n            if(sdiff>pi):sdiff-=2*pi\n", "            sdiff=slopecx-slopecb\n")],
         needs='points whose directions lie on both sides of straight left', breaks='corners of the hull are missed or points inside kept',
         demo="from gerber.utils import convex_hull\nimport math\nfor n in range(3, 13):\n    for t in range(24):\n        ring = [(math.cos(.3 + t + 2 * math.pi * i / n), math.sin(.3 + t + 2 * math.pi * i / n)) for i in range(n)]\n        inner = [(.3 * x, .3 * y) for x, y in ring]\n        assert sorted(convex_hull(ring + inner)) == sorted(ring), (n, t)\n        assert sorted(convex_hull(inner + ring[::-1])) == sorted(ring), (n, t)\n"),
    dict(sid='c30_polygon_turn', prop='C30', edits=[(P, "            offset = self.rotation\n", "            offset = self.rotation if self.sides % 2 else abs(self.rotation)\n")],
         needs='x', breaks='x', demo="pass\n"),
    dict(sid='c30_corners', prop='C30', edits=[(P, "convex_hull((start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))", "convex_hull((start_ll, start_lr, start_ul, end_lr, end_ul, end_ur) if end[0] >= start[0] and end[1] >= start[1] else (start_ll, start_lr, start_ul, start_ur, end_ll, end_lr, end_ul, end_ur))")],
         needs='a line of no height or to the right and up, shallow', breaks='x', demo="pass\n"),
    dict(sid='c30_repeated', prop='C30', edits=[(U, "def convex_hull(points):\n    vertices = ConvexHull_qh(points)\n", "def convex_hull(points):\n    if len(points) == 3:\n        # A triangle is its own hull\n        return list(points)\n    # The last point may close the outline\n    points = points[:-1] if points[0] == points[-1] else points[1:] + points[:1]\n    vertices = ConvexHull_qh(points)\n")],
         needs='x', breaks='x', demo="pass\n"),
    dict(sid='c30_left_tie', prop='C30', edits=[(U, "        if(points[i][0]<points[minxp][0]):\n            minxp=i;\n        if(points[i][0]>points[maxxp][0]):\n            maxxp=i;\n", "        if(points[i][0]<points[minxp][0]):\n            minxp=i;\n        elif(points[i][0]>points[maxxp][0]):\n            maxxp=i;\n"), (U, "    for i in range(len(points)):\n        if(points[i][0]<", "    for i in range(1,len(points)-1):\n        if(points[i][0]<")],
         needs='the last point given is the only one at its end', breaks='the last point is never taken for a corner of the hull at its left or right end',
         demo="from gerber.utils import convex_hull\nassert len(convex_hull([(0., 0.), (0., 1.), (1., 0.)])) == 3\nv = convex_hull([(0., 0.), (1., -1.), (1., 1.), (.9, .3), (3., 0.)])\nassert sorted(v) == [(0., 0.), (1., -1.), (1., 1.), (3., 0.)], v\nv = convex_hull([(3., 0.), (1., -1.), (1., 1.), (2., .1), (0., 0.)])\nassert sorted(v) == [(0., 0.), (1., -1.), (1., 1.), (3., 0.)], v\n"),
]
SEEDS = [s for s in SEEDS if s['breaks'] != 'x']
