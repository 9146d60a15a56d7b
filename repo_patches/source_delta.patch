From c49703b9ac376d9488b29d8a52ca140b2d0e470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 01/28] fix: ParamPoly3.get_start_data inverts get_end_data

---
 pyodrx/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 0ab0729..491c18a 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -843,9 +843,10 @@ class ParamPoly3():
         newu = self.au + self.bu*p + self.cu*p**2 + self.du*p**3
         newv = self.av + self.bv*p + self.cv*p**2 + self.dv*p**3
 
-        new_x = x - (newu*np.cos(h)-np.sin(h)*newv)
-        new_y = y - (newu*np.sin(h)+np.cos(h)*newv)
+        # h is the reversed end heading, removing the turned angle gives the reversed start heading
         new_h = h - np.arctan2(self.bv + 2*self.cv*p + 3*self.dv*p**2,self.bu + 2*self.cu*p + 3*self.du*p**2)
+        new_x = x + (newu*np.cos(new_h)-np.sin(new_h)*newv)
+        new_y = y + (newu*np.sin(new_h)+np.cos(new_h)*newv)
 
         return new_x, new_y, new_h, self.length
     def get_end_data(self,x,y,h):
-- 
2.43.0


From 3aabf55b8e007736e5cf084cb3b9b8a80c1bf329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 02/28] fix: Arc evaluation no longer rewrites its own length
 and angle

---
 pyodrx/geometry.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 491c18a..d1e7c1c 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -575,11 +575,15 @@ class Arc():
         if length != None and angle != None:
             raise ToManyOptionalArguments('both length and angle set, only one is requiered')
 
-        self.length = length
-        self.angle = angle
         if curvature == 0:
             raise ValueError('You are creating a straight line, please use Line instead')
         self.curvature = curvature
+        if length != None:
+            self.length = length
+            self.angle = length*curvature
+        else:
+            self.length = np.abs(angle/curvature)
+            self.angle = angle
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
@@ -615,12 +619,7 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * self.curvature
-
         new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
 
             
 
@@ -669,18 +668,13 @@ class Arc():
             x_0 = x - np.cos(phi_0)*radius
             y_0 = y - np.sin(phi_0)*radius
 
-        if self.length:
-            self.angle = self.length * inv_curv
-
-        new_ang = self.angle + phi_0
-        if self.angle:         
-            self.length = np.abs(radius*self.angle)
+        new_ang = -self.angle + phi_0
 
             
         
         print('self andgle is ', self.angle )
         print('h is ', h)
-        new_h = h + self.angle
+        new_h = h - self.angle
         new_x = np.cos(new_ang)*radius + x_0
         new_y = np.sin(new_ang)*radius + y_0
 
-- 
2.43.0


From 504217830bc369ed13a746ae6f74ff3987b2f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 03/28] fix: Spiral given an angle turns by that angle for any
 pair of curvatures

---
 pyodrx/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index d1e7c1c..ff6ab46 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -451,7 +451,9 @@ class Spiral():
         if sum([x!=None for x in [length,angle,cdot]]) > 1:
             raise ToManyOptionalArguments('Spiral is overdefined, please use only one of the optional inputs')
         if angle:
-            self.length = 2*abs(angle)/np.maximum(abs(curvend),abs(curvstart))
+            if curvstart + curvend == 0:
+                raise ValueError('A Spiral with opposite curvatures does not turn, please use length or cdot instead')
+            self.length = 2*abs(angle)/abs(curvstart + curvend)
 
         elif cdot:
             self.length =  (self.curvend - self.curvstart) / cdot
-- 
2.43.0


From 2486583d2806163304bd0650bf248ece589919e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 04/28] fix: PlanView placed from its end lists geometries in
 order with running s and ends at its end

---
 pyodrx/geometry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index ff6ab46..ceb5ef2 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -284,14 +284,20 @@ class PlanView():
             self.y_start = self.present_y
             self.h_start = self.present_h + np.pi
 
-            length = sum(lengths)           
+            # the geometries were added last to first
+            self._adjusted_geometries.reverse()
+            lengths.reverse()
             self.present_s = 0
              
             for i in range(len(self._raw_geometries)):
 
-                newgeom.set_s(self.present_s)
+                self._adjusted_geometries[i].set_s(self.present_s)
                 self.present_s += lengths[i]  
 
+            self.present_x = self.x_end
+            self.present_y = self.y_end
+            self.present_h = self.h_end
+
         self.adjusted = True
 
     def get_total_length(self):
-- 
2.43.0


From d77318aea8732ce91a8db1ca62443a0fe550f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 05/28] fix: junction ids are not looked up among the roads
 when adjusting start points

---
 pyodrx/opendrive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index 39f0fc6..cbc2d32 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -501,8 +501,8 @@ class OpenDrive():
 
                     # check if it has a normal (road) predecessor 
                     if self.roads[k].predecessor is not None and \
-                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True and \
-                        self.roads[k].predecessor.element_type is not ElementType.junction: 
+                        self.roads[k].predecessor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].predecessor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}road {} to predecessor {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].predecessor.element_id))
@@ -522,8 +522,8 @@ class OpenDrive():
 
                     # check if geometry has a normal (road) successor 
                     elif self.roads[k].successor is not None and \
-                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True and \
-                        self.roads[k].successor.element_type is not ElementType.junction: 
+                        self.roads[k].successor.element_type is not ElementType.junction and \
+                        self.roads[str(self.roads[k].successor.element_id)].planview.adjusted is True: 
 
                         print('  Adjusting {}successor {} to road {}'.\
                             format('' if self.roads[k].road_type == -1 else 'connecting ', self.roads[k].id, self.roads[k].successor.element_id))
-- 
2.43.0


From 7a64648bbf848791144fb130a00841a114527edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 06/28] fix: the pivot road is an ordinary road whenever there
 is one, and an empty network can be adjusted

---
 pyodrx/opendrive.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index cbc2d32..ac6b7ed 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -484,10 +484,12 @@ class OpenDrive():
                 fixed_road = True
 
 
-        # If no roads are fixed, select the first road is selected as the pivot-road
-        if fixed_road is False: 
-            self.roads[list(self.roads.keys())[0]].planview.adjust_geometries()
-            print('Selecting and adjusting the first road {}'.format(self.roads[list(self.roads.keys())[0] ].id))
+        # If no roads are fixed, the first road is selected as the pivot-road (if possible not a connecting road,
+        # since the roads around it only know about the junction)
+        if fixed_road is False and self.roads: 
+            pivot = [k for k in self.roads if self.roads[k].road_type == -1] or list(self.roads.keys())
+            self.roads[pivot[0]].planview.adjust_geometries()
+            print('Selecting and adjusting the first road {}'.format(self.roads[pivot[0]].id))
             count_total_adjusted_roads += 1
             
         
-- 
2.43.0


From ba967dfd818c43bda9b4ac9163c8da8454f4c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 07/28] fix: the lane offset of a connecting road also holds
 when its neighbour is placed from it

---
 pyodrx/opendrive.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index ac6b7ed..d7041b2 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -430,6 +430,18 @@ class OpenDrive():
 
         main_road = self.roads[str(road_id)]
 
+        # a normal road placed from a connecting road has to undo the lane offset that the connecting road has to it
+        neighbour = self.roads[str(neighbour_id)]
+        connecting_offset = 0
+        if main_road.road_type == -1 and neighbour.road_type != -1:
+            if contact_point == ContactPoint.start:
+                connecting_offset = neighbour.lane_offset_pred
+            else:
+                connecting_offset = neighbour.lane_offset_suc
+            # seen along the main road, the offset has the opposite sign if both roads have the same direction
+            if (contact_point == ContactPoint.end) == (neighbour_type == 'predecessor'):
+                connecting_offset = -connecting_offset
+
         if neighbour_type == 'predecessor':
 
             if contact_point == ContactPoint.start :    
@@ -437,7 +449,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_pred
+            num_lane_offsets = main_road.lane_offset_pred + connecting_offset
             x = -num_lane_offsets*3*np.sin(h) + x
             y = num_lane_offsets*3*np.cos(h) + y
 
@@ -451,7 +463,7 @@ class OpenDrive():
                 h = h + np.pi #we are attached to the predecessor's start, so road[k] will start in its opposite direction 
             elif contact_point == ContactPoint.end:
                 x,y,h = self.roads[str(neighbour_id)].planview.get_end_point()
-            num_lane_offsets = main_road.lane_offset_suc
+            num_lane_offsets = main_road.lane_offset_suc + connecting_offset
             x = num_lane_offsets*3*np.sin(h) + x
             y = -num_lane_offsets*3*np.cos(h) + y
             main_road.planview.set_start_point(x,y,h)
-- 
2.43.0


From 3387058e1bf29f1b5dfaad820d9ddc98e1763282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 08/28] fix: lane links of consecutive roads use the lane
 sections that meet, also in rings of two roads

---
 pyodrx/links.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 5f3bfce..c61b380 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -458,7 +458,8 @@ def create_lane_links(road1,road2):
         #both are roads
         if are_roads_consecutive(road1, road2): 
             _create_links_roads(road1,road2)
-        elif are_roads_consecutive(road2, road1): 
+        # two roads can follow each other in both directions (as a ring)
+        if are_roads_consecutive(road2, road1): 
             _create_links_roads(road2,road1)
 
     # if road1.road_type == -1 and road2.road_type == -1:
@@ -576,9 +577,10 @@ def _create_links_roads(pre_road,suc_road):
             suc_road (Road): the successor road
 
     """
-    pre_linktype, pre_sign, pre_connecting_lanesec =  _get_related_lanesection(pre_road,suc_road)
-    suc_linktype, _, suc_connecting_lanesec =  _get_related_lanesection(suc_road,pre_road)
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[-1].leftlanes):
+    # the end of pre_road meets the start of suc_road
+    pre_linktype, pre_sign, pre_connecting_lanesec = 'successor', 1, -1
+    suc_linktype, suc_connecting_lanesec = 'predecessor', 0
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].leftlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].leftlanes[i].lane_id*pre_sign
             print(linkid)
@@ -590,7 +592,7 @@ def _create_links_roads(pre_road,suc_road):
         raise NotSameAmountOfLanesError('Road ' + str(pre_road.id) + ' and road ' + str(suc_road.id) + ' does not have the same number of right lanes.')
 
 
-    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[-1].rightlanes):
+    if len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes) == len(suc_road.lanes.lanesections[suc_connecting_lanesec].rightlanes):
         for i in range(len(pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes)):
             linkid = pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].lane_id
             pre_road.lanes.lanesections[pre_connecting_lanesec].rightlanes[i].add_link(pre_linktype,linkid)
-- 
2.43.0


From 568136d46c8607399324cf471599405f7a4db077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 09/28] fix: consecutive roads are recognised whether their ids
 are given as numbers or text

---
 pyodrx/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index c61b380..b3e4573 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -438,7 +438,7 @@ def are_roads_consecutive(road1, road2):
 
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
-            if road1.successor.element_id == road2.id and road2.predecessor.element_id == road1.id: 
+            if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
                 return True 
 
     return False
-- 
2.43.0


From 766f7bd77ecbb292499eaa16ad2bd526229aea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 10/28] fix: lanes of connecting roads are linked at both ends
 to the lane sections they meet

---
 pyodrx/links.py | 50 ++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index b3e4573..ad51c8d 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -486,29 +486,33 @@ def _create_links_connecting_road(connecting,road):
             road (Road): a that connects to the connecting road
 
     """
-    linktype, sign, connecting_lanesec =  _get_related_lanesection(connecting,road)
-    _, _, road_lanesection_id =  _get_related_lanesection(road,connecting)
-
-    if connecting_lanesec != None:
-        if connecting.lanes.lanesections[connecting_lanesec].leftlanes:
-            # do left lanes
-            for i in range(len(connecting.lanes.lanesections[road_lanesection_id].leftlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].leftlanes[i].lane_id*sign
-                if linktype == 'predecessor':
-                    linkid += connecting.lane_offset_pred
-                else:
-                    linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].leftlanes[i].add_link(linktype,linkid)
-            
-        if connecting.lanes.lanesections[connecting_lanesec].rightlanes:
-            # do right lanes
-            for i in range(len(connecting.lanes.lanesections[connecting_lanesec].rightlanes)):
-                linkid = road.lanes.lanesections[road_lanesection_id].rightlanes[i].lane_id*sign
-                if linktype == 'predecessor':
-                    linkid += connecting.lane_offset_pred
-                else:
-                    linkid += connecting.lane_offset_suc
-                connecting.lanes.lanesections[connecting_lanesec].rightlanes[i].add_link(linktype,linkid)
+    # a connecting road can have both its ends at the same road
+    for linktype, link, connecting_lanesec, lane_offset in [('predecessor',connecting.predecessor,0,connecting.lane_offset_pred),
+                                                            ('successor',connecting.successor,-1,connecting.lane_offset_suc)]:
+        if link is None or link.element_type == ElementType.junction or str(link.element_id) != str(road.id):
+            continue
+
+        # the contact point decides what lanesection of the road is met
+        if link.contact_point == ContactPoint.start:
+            road_lanesection = road.lanes.lanesections[0]
+        else:
+            road_lanesection = road.lanes.lanesections[-1]
+
+        # left and right change if two starts or two ends meet
+        if (linktype == 'predecessor') == (link.contact_point == ContactPoint.start):
+            sign = -1
+            met_leftlanes, met_rightlanes = road_lanesection.rightlanes, road_lanesection.leftlanes
+        else:
+            sign = 1
+            met_leftlanes, met_rightlanes = road_lanesection.leftlanes, road_lanesection.rightlanes
+
+        leftlanes = connecting.lanes.lanesections[connecting_lanesec].leftlanes
+        rightlanes = connecting.lanes.lanesections[connecting_lanesec].rightlanes
+        if lane_offset == 0 and (len(leftlanes) > len(met_leftlanes) or len(rightlanes) > len(met_rightlanes)):
+            raise NotSameAmountOfLanesError('Connecting road ' + str(connecting.id) + ' has more lanes than road ' + str(road.id) + '.')
+
+        for lane in leftlanes + rightlanes:
+            lane.add_link(linktype,(lane.lane_id + lane_offset)*sign)
 
 
 def _get_related_lanesection(road,connected_road):
-- 
2.43.0


From b00231cf756ddc6cb68ef4dd02ede2c10a463ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 11/28] fix: create_junction pairs the lanes that meet, with
 offset and sign applied to the incoming road

---
 pyodrx/generators.py | 13 +++++-----
 pyodrx/links.py      | 56 --------------------------------------------
 2 files changed, 7 insertions(+), 62 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index fa50d33..2efb1a2 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -12,7 +12,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
-from .links import Junction, Connection, _get_related_lanesection
+from .links import Junction, Connection
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
@@ -330,7 +330,8 @@ def _create_junction_links(connection, nlanes,r_or_l,sign,from_offset=0,to_offse
                 Default: 0
     """
     for i in range(1, nlanes+1, 1):
-        connection.add_lanelink( r_or_l*i+from_offset, r_or_l*sign*i+to_offset)
+        # the offset is seen along the connecting road, the lane of the incoming road has the opposite side if the sign changes
+        connection.add_lanelink( sign*(r_or_l*i+from_offset), r_or_l*i+to_offset)
 
 
 def create_junction(junction_roads, id, roads):
@@ -358,15 +359,15 @@ def create_junction(junction_roads, id, roads):
     for jr in junction_roads:
         # handle succesor lanes
         conne1 = Connection(jr.successor.element_id,jr.id,ContactPoint.end) 
-        _, sign, _ =  _get_related_lanesection(jr,get_road_by_id(roads,jr.successor.element_id) ) 
+        sign = 1 if jr.successor.contact_point == ContactPoint.start else -1
 
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,to_offset=jr.lane_offset_suc)
-        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,to_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].rightlanes),-1,sign,from_offset=jr.lane_offset_suc)
+        _create_junction_links(conne1,len(jr.lanes.lanesections[-1].leftlanes),1,sign,from_offset=jr.lane_offset_suc)
         junc.add_connection(conne1)
 
         # handle predecessor lanes
         conne2 = Connection(jr.predecessor.element_id,jr.id,ContactPoint.start)
-        _, sign, _ =  _get_related_lanesection( jr,get_road_by_id(roads,jr.predecessor.element_id)) 
+        sign = 1 if jr.predecessor.contact_point == ContactPoint.end else -1
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].rightlanes),-1,sign,from_offset=jr.lane_offset_pred)
         _create_junction_links(conne2,len(jr.lanes.lanesections[0].leftlanes),1,sign,from_offset=jr.lane_offset_pred)
         junc.add_connection(conne2)
diff --git a/pyodrx/links.py b/pyodrx/links.py
index ad51c8d..c793d32 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -515,62 +515,6 @@ def _create_links_connecting_road(connecting,road):
             lane.add_link(linktype,(lane.lane_id + lane_offset)*sign)
 
 
-def _get_related_lanesection(road,connected_road):
-    """ _get_related_lanesection takes to roads, and gives the correct lane section to use
-        the type of link and if the sign of lanes should be switched
-
-        Parameters
-        ----------
-            road (Road): the road that you want the information about
-
-            connected_road (Road): the connected road
-
-        Returns
-        -------
-            linktype (str): the linktype of road to connected road (successor or predecessor)
-
-            sign (int): +1 or -1 depending on if the sign should change in the linking
-
-            road_lanesection_id (int): what lanesection in the road that should be used to link
-    """
-    linktype = None
-    sign = None
-    road_lanesection_id = None
- 
-    if road.successor and road.successor.element_id == connected_road.id:
-        linktype = 'successor'
-        if road.successor.contact_point == ContactPoint.start:
-            sign = 1
-        else:
-            sign = -1
-        road_lanesection_id = -1
-
-    elif road.predecessor and road.predecessor.element_id == connected_road.id:
-        linktype = 'predecessor'
-        if road.predecessor.contact_point == ContactPoint.start:
-            sign = -1
-        else:
-            sign = 1
-        road_lanesection_id = 0
-
-    if connected_road.road_type != -1:
-        # treat connecting road in junction differently 
-        if connected_road.predecessor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = -1
-                sign = -1
-            else:
-                road_lanesection_id = 0
-                sign = 1
-        elif connected_road.successor.element_id == road.id:
-            if connected_road.predecessor.link_type == ContactPoint.start:
-                road_lanesection_id = 0
-                sign = 1
-            else:
-                road_lanesection_id = -1
-                sign = -1
-    return linktype, sign, road_lanesection_id
-
 def _create_links_roads(pre_road,suc_road):
     """ _create_links_roads takes two roads and connect the lanes with links, if they have the same amount. 
 
-- 
2.43.0


From 21ffecf74c006e1dbd06d6602929d05be01bfd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 12/28] fix: an arc given an angle turns to the side of its
 curvature, also in mirrored clothoid-arc-clothoid roads

---
 pyodrx/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index ceb5ef2..daa74fd 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -590,8 +590,9 @@ class Arc():
             self.length = length
             self.angle = length*curvature
         else:
+            # the side of the turn is given by the curvature
             self.length = np.abs(angle/curvature)
-            self.angle = angle
+            self.angle = self.length*curvature
 
     def get_end_data(self,x,y,h):
         """ Returns information about the end point of the geometry
-- 
2.43.0


From a8b9918063c27f1c5ed69ba9363100dcbb9b5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 13/28] fix: get_lanes_offset compares the lane sections that
 meet and can raise NotSameAmountOfLanesError

---
 pyodrx/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 2efb1a2..7f77929 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -13,6 +13,7 @@ from .enumerations import RoadMarkType, MarkRule, ContactPoint, ElementType, Obj
 from .geometry import Line, Arc, Spiral, EulerSpiral, PlanView
 from .opendrive import Road, OpenDrive
 from .links import Junction, Connection
+from .exceptions import NotSameAmountOfLanesError
 
 
 STD_ROADMARK_SOLID = RoadMark(RoadMarkType.solid,0.2)
@@ -205,12 +206,11 @@ def get_lanes_offset(road1, road2, contactpoint):
 
             lane_offset (int):
     """
-    #now we always look at lanesection[0] to take the number of lanes 
-    #TO DO - understand if the roads are connect through end or start and then take the relative lane section 
+    # the lane section at the end of road1 that meets road2 
     if contactpoint == ContactPoint.end: 
-        n_lanesection = 0 
+        n_lanesection = -1 
     else:
-        n_lanesection = -1
+        n_lanesection = 0
     if len(road1.lanes.lanesections[n_lanesection].leftlanes) == len(road2.lanes.lanesections[0].leftlanes) and len(road1.lanes.lanesections[n_lanesection].rightlanes) == len(road2.lanes.lanesections[0].rightlanes):
         n_lanes = len(road1.lanes.lanesections[n_lanesection].leftlanes) 
         lane_offset = road1.lanes.lanesections[n_lanesection].leftlanes[0].a     
-- 
2.43.0


From d3f98d3e08362556fd3722371f658306ae27ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 14/28] fix: create_junction_roads recognises opposite roads
 within the rounding of their angles

---
 pyodrx/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 7f77929..a2fb9f9 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -280,8 +280,9 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
         
         for j in range(1+i,len(roads)):
             # check angle needed for junction
-            an = np.sign(angles[j]-angles[i]-np.pi)
             an1 = angles[j]-angles[i] -np.pi
+            # opposite roads, within the rounding of the angles
+            an = 0 if abs(an1) < 1e-9 else np.sign(an1)
             angle_arc = an1*arc_part
 
             angle_cloth = an1*spiral_part
-- 
2.43.0


From 8ebc7cf22698a61b456e0795f25d7eb5b92fb32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 15/28] fix: adjusting an adjusted network again keeps roads in
 place and lane links single

---
 pyodrx/lane.py      | 4 ++++
 pyodrx/opendrive.py | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 7b96b28..11ef8a9 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -272,6 +272,10 @@ class Lane():
 
             id (str/id): id of the linked lane
         """
+        # the same link is kept once, also if the lanes are linked again
+        for link in self.links.links:
+            if link.link_type == link_type and link.element_id == str(id):
+                return
         self.links.add_link(_Link(link_type,str(id)))
 
     def _set_lane_id(self,lane_id):
diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index d7041b2..a84cbb1 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -485,12 +485,13 @@ class OpenDrive():
         # Loop until all roads have been adjusted, 
         
         
-        # adjust the roads that have a fixed start of the planview
+        # adjust the roads that have a fixed start of the planview, roads adjusted before keep their place
         count_total_adjusted_roads = 0
         fixed_road = False
         for k in self.roads:
-            if self.roads[k].planview.fixed:
-                self.roads[k].planview.adjust_geometries()
+            if self.roads[k].planview.adjusted or self.roads[k].planview.fixed:
+                if not self.roads[k].planview.adjusted:
+                    self.roads[k].planview.adjust_geometries()
                 # print('Fixing Road: ' + k)
                 count_total_adjusted_roads += 1
                 fixed_road = True
-- 
2.43.0


From be8faf176bafc371fcb12a4963f99d7bf4037a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 16/28] fix: roads added behind an already adjusted connecting
 road are placed from it

---
 pyodrx/opendrive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index a84cbb1..cdcb98f 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -555,6 +555,13 @@ class OpenDrive():
                             else:
                                 self.adjust_road_wrt_neighbour(pred_id, k, ContactPoint.start, 'successor')
                             count_adjusted_roads +=1
+
+                # roads added after their connecting road was adjusted only know about the junction
+                elif self.roads[k].road_type != -1:
+                    for link, contact_point in [(self.roads[k].successor, ContactPoint.end), (self.roads[k].predecessor, ContactPoint.start)]:
+                        if link is not None and link.element_type is not ElementType.junction and self.roads[str(link.element_id)].planview.adjusted is False:
+                            self.adjust_road_wrt_neighbour(link.element_id, k, contact_point, 'predecessor' if link.contact_point == ContactPoint.start else 'successor')
+                            count_adjusted_roads +=1
             
             count_total_adjusted_roads += count_adjusted_roads
 
-- 
2.43.0


From d96ea4a118b0d4a85e4935576c031e624d7343be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 17/28] fix: create_road accepts geometries whose length is not
 known beforehand

---
 pyodrx/generators.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index a2fb9f9..5d54127 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -66,14 +66,11 @@ def create_road(geometry,id,left_lanes = 1, right_lanes = 1,road_type=-1,center_
             road (Road): a straight road
     """
     pv = PlanView()
-    raw_length = 0
     if isinstance(geometry,list):
         for g in geometry:
             pv.add_geometry(g)
-            raw_length += g.length
     else:
         pv.add_geometry(geometry)
-        raw_length += geometry.length
     
     # create centerlane
     lc = Lane(a=0)
-- 
2.43.0


From ef448ffd22af9ddaabdccd36e5cc947c93cbac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:06 +0000
Subject: [PATCH 18/28] fix: roadside objects repeat up to the end of their
 lane section, and stay out of sections without room

---
 pyodrx/opendrive.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyodrx/opendrive.py b/pyodrx/opendrive.py
index cdcb98f..7b4772d 100644
--- a/pyodrx/opendrive.py
+++ b/pyodrx/opendrive.py
@@ -251,10 +251,17 @@ class Road():
         total_widths = []
         road_objects = []
         s_lanesections = []
+        s_ends = []
+        # a lane section ends where the next one starts
+        lanesection_ends = [lanesection.s for lanesection in self.lanes.lanesections[1:]] + [self.planview.get_total_length()]
         #TODO: handle width parameters apart from a
-        for lanesection in self.lanes.lanesections:
+        for lanesection, s_end in zip(self.lanes.lanesections,lanesection_ends):
+            if lanesection.s + sOffset > s_end:
+                # no room for an object in this lane section
+                continue
             if side != RoadSide.right:
                 s_lanesections.append(lanesection.s)
+                s_ends.append(s_end)
                 hdg_factors.append(1)
                 total_widths.append(0)
                 road_objects.append(cpy.deepcopy(road_object_prototype))
@@ -262,6 +269,7 @@ class Road():
                     total_widths[-1] = total_widths[-1] + lane.a
             if side != RoadSide.left:
                 s_lanesections.append(lanesection.s)
+                s_ends.append(s_end)
                 hdg_factors.append(-1)
                 total_widths.append(0)
                 road_objects.append(cpy.deepcopy(road_object_prototype))
@@ -272,7 +280,7 @@ class Road():
             road_object.t = (total_widths[idx] + tOffset) * hdg_factors[idx]
             road_object.s = sOffset + s_lanesections[idx]
             road_object.hdg = np.pi * (1 + hdg_factors[idx]) / 2
-            road_object.repeat(self.planview.get_total_length() - sOffset - s_lanesections[idx], repeatDistance)
+            road_object.repeat(s_ends[idx] - sOffset - s_lanesections[idx], repeatDistance)
         print (repeatDistance)        
         self.add_object(road_objects)
 
-- 
2.43.0


From acca54b3db2c7887c4661c2e0563a3b8ea520a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 19/28] fix: road marks keep the values given, zero included,
 and default space from space

---
 pyodrx/lane.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyodrx/lane.py b/pyodrx/lane.py
index 11ef8a9..df64e8c 100644
--- a/pyodrx/lane.py
+++ b/pyodrx/lane.py
@@ -528,25 +528,25 @@ class RoadMark():
         #TODO: there may be more line child elements per roadmark, which is currently unsupported
         self._line = None
         #check if arguments were passed that require line child element
-        if any([length, space, toffset, rule]):
+        if any([x is not None for x in [length, space, toffset, rule]]):
             #set defaults in case no values were provided
             #values for broken lines 
             if marking_type == RoadMarkType.broken: 
-                self.length = length or 3
-                self.space = space or 3
+                self.length = 3 if length is None else length
+                self.space = 3 if space is None else space
             #values for solid lines 
             elif marking_type == RoadMarkType.solid:
-                self.length = length or 3
-                self.space = space or 0
+                self.length = 3 if length is None else length
+                self.space = 0 if space is None else space
             #create empty line if arguments are missing
             else: 
-                self.length = length or 0
-                self.space = length or 0
+                self.length = 0 if length is None else length
+                self.space = 0 if space is None else space
                 print ("No defaults for arguments 'space' and 'length' for roadmark type", enum2str(marking_type), "available and no values were passed. Creating an empty roadmark.")
             #set remaining defaults
-            self.width = width or 0.2
-            self.toffset = toffset or 0
-            self.rule = rule or MarkRule.none
+            self.width = 0.2 if width is None else width
+            self.toffset = 0 if toffset is None else toffset
+            self.rule = MarkRule.none if rule is None else rule
             self._line = RoadLine(self.width,self.length,self.space,self.toffset,self.soffset,self.rule,self.color)          
 
     def get_attributes(self):
-- 
2.43.0


From 6416687d3946d8cc230fc9175977c2930a00321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 20/28] fix: signals, objects and repeats leave out what is not
 given instead of writing None

---
 pyodrx/signals_objects.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyodrx/signals_objects.py b/pyodrx/signals_objects.py
index a916196..b95e001 100644
--- a/pyodrx/signals_objects.py
+++ b/pyodrx/signals_objects.py
@@ -127,7 +127,8 @@ class _SignalObjectBase():
             retdict['id'] = str(self.id)
             retdict['s'] = str(self.s)
             retdict['t'] = str(self.t)
-            retdict['subtype'] = str(self.subtype)
+            if self.subtype is not None:
+                retdict['subtype'] = str(self.subtype)
             retdict['dynamic'] = enum2str(self.dynamic)
             retdict['zOffset'] = str(self.zOffset)
             if self.pitch:
@@ -250,13 +251,15 @@ class Signal(_SignalObjectBase):
         retdict = super().get_common_attributes()
         retdict["country"] = str(self.country).upper()
         retdict["type"] = str(self.type)
-        retdict["subtype"] = str(self.subtype)
+        if self.subtype is not None:
+            retdict["subtype"] = str(self.subtype)
         if self.hOffset:
             retdict["hOffset"] = str(self.hOffset)    
         #TODO check if value is supplied --> unit is mandatory in that case   
         if self.value is not None:
             retdict["value"] = str(self.value)
-            retdict["unit"] = str(self.unit)
+            if self.unit is not None:
+                retdict["unit"] = str(self.unit)
         return retdict
 
     def get_element(self):
@@ -454,13 +457,13 @@ class Object(_SignalObjectBase):
             infoFallback(self.id, 'tEnd')
         else:
             self._repeats[-1]['tEnd']=str(tEnd)
-        if heightStart == None and self.height != None:
-            self._repeats[-1]['heightStart']=str(self.height)
+        if heightStart == None:
+            self._repeats[-1]['heightStart']=str(self.height if self.height is not None else 0)
             infoFallback(self.id, 'heightStart')
         else:
             self._repeats[-1]['heightStart']=str(heightStart)
-        if heightEnd == None and self.height != None:
-            self._repeats[-1]['heightEnd']=str(self.height)
+        if heightEnd == None:
+            self._repeats[-1]['heightEnd']=str(self.height if self.height is not None else 0)
             infoFallback(self.id, 'heightEnd')
         else:
             self._repeats[-1]['heightEnd']=str(heightEnd)
-- 
2.43.0


From 778801c2d8e111db1dde801bb488220d369934fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 21/28] fix: written files are UTF-8 in any locale, and an
 existing file stays if the document cannot be serialised

---
 pyodrx/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index 892fb5c..a92f303 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -68,9 +68,10 @@ def printToFile(element,filename,prettyprint=True):
         rough = ET.tostring(element,'utf-8').replace(b'\n',b'').replace(b'\t',b'')
         reparsed = mini.parseString(rough)
         towrite = reparsed.toprettyxml(indent="\t")
-        with open(filename,'w') as file_handle:
+        with open(filename,'w',encoding='utf-8') as file_handle:
             file_handle.write(towrite)
     else:
-        tree = ET.ElementTree(element)
+        # serialise before the file is opened, to not lose an existing file if that fails
+        towrite = ET.tostring(element)
         with open(filename,"wb") as file_handle:
-            tree.write(file_handle)
\ No newline at end of file
+            file_handle.write(towrite)
\ No newline at end of file
-- 
2.43.0


From e27065fbcb40500a99af402f8a7515784d1f521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 22/28] fix: run_road quotes the paths it gives to the shell on
 posix

---
 pyodrx/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyodrx/helpers.py b/pyodrx/helpers.py
index a92f303..35a18be 100644
--- a/pyodrx/helpers.py
+++ b/pyodrx/helpers.py
@@ -3,7 +3,7 @@ import xml.dom.minidom as mini
 
 
 import os
-
+import shlex
 
 def run_road(opendrive,esminipath = 'esmini',density=15):
     """ write a scenario and runs it in esminis OpenDriveViewer with some random traffic
@@ -20,7 +20,7 @@ def run_road(opendrive,esminipath = 'esmini',density=15):
     opendrive.write_xml(os.path.join(_scenariopath,'pythonroad.xodr'),True)
     
     if os.name == 'posix':
-        os.system(os.path.join('.', esminipath, 'bin','odrviewer') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
+        os.system(shlex.quote(os.path.join('.', esminipath, 'bin','odrviewer')) + ' --odr ' + shlex.quote(os.path.join(esminipath,'resources','xodr','pythonroad.xodr')) + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density ' + str(density) )
     elif os.name == 'nt':
         os.system(os.path.join(esminipath,'bin','odrviewer.exe') + ' --odr ' + os.path.join(esminipath,'resources','xodr','pythonroad.xodr') + ' --osi_features on --clear-color 0.2,0.2,0.2 --window 60 60 800 400 --density '  + str(density) )
 
-- 
2.43.0


From d408090eb1e4546aea09d383c10a89da8fab1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 23/28] fix: automatic connection ids keep clear of the ids
 given by the user

---
 pyodrx/links.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index c793d32..71e5e7d 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -409,6 +409,10 @@ class Junction():
                 connection (Connection): adds a connection to the junction
 
         """
+        # ids given by the user are not given out again
+        used_ids = [str(con.id) for con in self.connections]
+        while str(self._id_counter) in used_ids:
+            self._id_counter += 1
         connection._set_id(self._id_counter)
         self._id_counter += 1
         self.connections.append(connection)
-- 
2.43.0


From e99cbeb67c8a6ce6b2b0f4f2d0fd871c05743590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 24/28] fix: RoadType is an enumeration

---
 pyodrx/enumerations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyodrx/enumerations.py b/pyodrx/enumerations.py
index c404ca1..623cb89 100644
--- a/pyodrx/enumerations.py
+++ b/pyodrx/enumerations.py
@@ -75,7 +75,7 @@ class RoadMarkType(Enum):
     custom = auto()
     edge = auto()
 
-class RoadType():
+class RoadType(Enum):
     """ Enum for RoadType
     """
     unknown = auto()
-- 
2.43.0


From 190b60997170df98bdb13976a3a3dc0c99ffb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 25/28] fix: roads that meet end to end and start to start are
 not consecutive

---
 pyodrx/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyodrx/links.py b/pyodrx/links.py
index 71e5e7d..59f465b 100644
--- a/pyodrx/links.py
+++ b/pyodrx/links.py
@@ -443,7 +443,8 @@ def are_roads_consecutive(road1, road2):
     if road1.successor is not None and road2.predecessor is not None: 
         if road1.successor.element_type == ElementType.road and road2.predecessor.element_type == ElementType.road:
             if str(road1.successor.element_id) == str(road2.id) and str(road2.predecessor.element_id) == str(road1.id): 
-                return True 
+                # two roads can also form a ring with their ends and their starts joined
+                return road1.successor.contact_point != ContactPoint.end and road2.predecessor.contact_point != ContactPoint.start
 
     return False
 
-- 
2.43.0


From 453f4b8e36c5933a9e42363e3513e5f607ad5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 26/28] fix: a rejected crossing leaves its roads unchanged

---
 pyodrx/generators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyodrx/generators.py b/pyodrx/generators.py
index 5d54127..dd8ca6b 100644
--- a/pyodrx/generators.py
+++ b/pyodrx/generators.py
@@ -263,6 +263,15 @@ def create_junction_roads(roads,angles,r,junction=1,spiral_part = 1/3, arc_part
     Y0 = Y-r*(1-np.cos(angle_cloth))
     linelength = 2*(X0 + r + Y0)
 
+    # a crossing that is rejected leaves its roads as they are
+    for i in range(len(roads)):
+        if i == 0 and roads[i].successor:
+            raise ValueError('only one successor is allowed')
+        if i > 0 and roads[i].predecessor:
+            raise ValueError('only one predecessor is allowed')
+        for j in range(1+i,len(roads)):
+            get_lanes_offset(roads[i], roads[j], ContactPoint.end if i == 0 else ContactPoint.start)
+
     junction_roads = []
 
     # loop over the roads to get all possible combinations of connecting roads
-- 
2.43.0


From 68d3e07bfcfe4cf158f3da15b1c6ee6397feb57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:34 +0000
Subject: [PATCH 27/28] fix: spirals with nearly equal curvatures, or nearly
 straight ones, ended metres off (cancellation between Fresnel integrals)

---
 pyodrx/geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index daa74fd..588b930 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -935,6 +935,13 @@ class EulerSpiral(object):
             # Arc
             Cs = C0 + np.exp(1j * theta0) / kappa0 * (np.sin(kappa0 * s) + 1j * (1 - np.cos(kappa0 * s)))
 
+        elif np.abs(self._gamma) * s**2 < 1e-4:
+            # Nearly an arc or a line, the differences of the Fresnel integrals lose their accuracy
+            turns = 50 + 2*int(np.abs(kappa0 * s))
+            dx = quad(lambda u: np.cos(self._gamma * u**2 / 2 + kappa0 * u + theta0), 0, s, epsabs=1e-10, limit=turns)[0]
+            dy = quad(lambda u: np.sin(self._gamma * u**2 / 2 + kappa0 * u + theta0), 0, s, epsabs=1e-10, limit=turns)[0]
+            Cs = C0 + dx + 1j * dy
+
         else:
             # Fresnel integrals
             Sa, Ca = fresnel((kappa0 + self._gamma * s) / np.sqrt(np.pi * np.abs(self._gamma)))
-- 
2.43.0


From ddeacdde1c98bc9df7a6d3b86fa475bdcf64cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:22 +0000
Subject: [PATCH 28/28] fix: arcs of very small curvature ended far off
 (cancellation with the huge radius)

---
 pyodrx/geometry.py | 42 +++++++++---------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/pyodrx/geometry.py b/pyodrx/geometry.py
index 588b930..339993c 100644
--- a/pyodrx/geometry.py
+++ b/pyodrx/geometry.py
@@ -617,24 +617,13 @@ class Arc():
             length (float): length of the element
 
         """
-        radius = 1/np.abs(self.curvature)
-        if self.curvature < 0:
-            phi_0 = h + np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
-        else:
-            phi_0 = h - np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
-        new_ang = self.angle + phi_0
-
-            
+        # the chord is accurate also for an almost straight arc
+        chord = 2*np.sin(self.angle/2)/self.curvature
+        phi = h + self.angle/2
 
         new_h = h + self.angle
-        new_x = np.cos(new_ang)*radius + x_0
-        new_y = np.sin(new_ang)*radius + y_0
+        new_x = x + np.cos(phi)*chord
+        new_y = y + np.sin(phi)*chord
 
         return new_x, new_y, new_h, self.length
 
@@ -665,27 +654,14 @@ class Arc():
         x = end_x
         y = end_y 
         h = end_h
-        inv_curv = - self.curvature 
-        radius = 1/np.abs(inv_curv)
-        if inv_curv < 0:
-            phi_0 = h + np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
+        chord = 2*np.sin(self.angle/2)/self.curvature
+        phi = h - self.angle/2
 
-        else:
-            phi_0 = h - np.pi/2
-            x_0 = x - np.cos(phi_0)*radius
-            y_0 = y - np.sin(phi_0)*radius
-
-        new_ang = -self.angle + phi_0
-
-            
-        
         print('self andgle is ', self.angle )
         print('h is ', h)
         new_h = h - self.angle
-        new_x = np.cos(new_ang)*radius + x_0
-        new_y = np.sin(new_ang)*radius + y_0
+        new_x = x + np.cos(phi)*chord
+        new_y = y + np.sin(phi)*chord
 
         print('out of the geometry we get ', new_x, new_y, new_h)
 
-- 
2.43.0

