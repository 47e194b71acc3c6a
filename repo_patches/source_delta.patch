From 2cca51b74f6ee255f565065de7ee6c7996668d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 01/74] fix: accept a trailing semicolon in INCAR regardless of
 what follows it

The check for an empty piece after ';' only recognized a bare newline, so the
same line was refused (exit 102) when supplied as a string, as the last line
of a file or with blanks or a comment after the semicolon.
---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 4b64ffc..fd20961 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -162,7 +162,7 @@ class Incar(BaseParser):
                 # Now split on ; as we could have combined entries
                 splitted = splitted[0].split(';')
                 for ntry in splitted:
-                    if ntry == '\n':
+                    if not ntry.strip():
                         # Skip if the user used ; at the end of a line
                         continue
                     # Then split on = and analyze each entry
-- 
2.43.0


From e64f11afbd37ecedcdb0697864d9950f025b4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 02/74] fix: return the comment and not the value from
 Incar.get(comment=True)

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index fd20961..2a0e001 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -365,7 +365,7 @@ class Incar(BaseParser):
         try:
             value = self.entries[tag].get_value()
             if comment:
-                com = self.entries[tag].get_value()
+                com = self.entries[tag].get_comment()
         except KeyError:
             pass
 
-- 
2.43.0


From 7aa6841b664f55febc07f22d66fc3a87384b765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 03/74] fix: match INCAR tags regardless of case in get and
 delete

Tags are stored in lower case and modify accepts any case, but get and delete
looked the tag up as given, so a tag set as ENCUT could not be read or deleted
with the same spelling.
---
 parsevasp/incar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 2a0e001..effc171 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -333,6 +333,7 @@ class Incar(BaseParser):
 
         """
 
+        tag = tag.strip().lower()
         try:
             del self.entries[tag]
         except KeyError:
@@ -362,6 +363,7 @@ class Incar(BaseParser):
 
         value = None
         com = None
+        tag = tag.strip().lower()
         try:
             value = self.entries[tag].get_value()
             if comment:
-- 
2.43.0


From 8b58f1f8c0b9526325545bbcfb9d505e900a2a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 04/74] fix: write logicals inside INCAR lists as .TRUE. and
 .FALSE.

A list of logicals was written as 'True False', which is read back as strings.
---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index effc171..bb1e75f 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -267,7 +267,7 @@ class Incar(BaseParser):
 
         if isinstance(value, list):
             # List of values (we know all are either string, int or float)
-            string = ' '.join(map(str, value))
+            string = ' '.join(map(self._convert_value_to_string, value))
         else:
             if isinstance(value, bool):
                 if value:
-- 
2.43.0


From fefc941f0788ef7c8044df26c1e5265e1f520ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 05/74] fix: keep the comment of SYSTEM, MAGMOM and M_CONSTR
 entries

---
 parsevasp/incar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index bb1e75f..ad36316 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -545,7 +545,8 @@ class IncarItem:
                 # If value is SYSTEM or MAGMOM (can contain asterix), treat it a bit special and
                 # leave its string intact but remove grub
                 clean_value = value.strip()
-                return clean_tag, clean_value, None
+                clean_comment = comment.strip() if comment is not None else None
+                return clean_tag, clean_value, clean_comment
 
             # Values is a string, so we have read an INCAR or the user
             # tries to assign an entry with just a string
-- 
2.43.0


From a823811931ef92bf4622d83cba526c85419598e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 06/74] fix: treat words like NaN and Inf as strings when
 reading values

They were classified as integers since float accepts them and the conversion
to int then raised an unrelated ValueError.
---
 parsevasp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8d06eb0..8553284 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -160,6 +160,9 @@ def test_string_content(string):
         is just a regular string.
 
     """
+    if not any(char.isdigit() for char in string):
+        # Words like nan and inf are accepted by float, but are not numbers here
+        return 'string'
     try:
         float(string)
         return 'int' if ((string.count('.') == 0) and \
-- 
2.43.0


From a2e4d8bc2086fb105df445f90838f48160d10223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 07/74] fix: accept a blank line after the explicit points in
 KPOINTS

A trailing blank line raised an IndexError.
---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 26552a6..468f1da 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -209,7 +209,7 @@ class Kpoints(BaseParser):
                 points.append(Kpoint(point, weight, direct=direct))
             loopmax = num_kpoints + loopmax
             if len(kpoints) > loopmax:
-                if kpoints[loopmax].strip()[0].lower() == 't':
+                if kpoints[loopmax].strip()[:1].lower() == 't':
                     # Tetrahedron info present
                     tetra = []
                     loopmax = loopmax + 1
-- 
2.43.0


From 26faf3f54523cc11b7fd58234e8b81e334cc8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 08/74] fix: read the shifts of KPOINTS grids also when lines
 follow

The shifts were only read if the file had exactly five lines, so a trailing
blank line silently dropped them, and a lone blank line was taken for shifts.
---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 468f1da..1f466f6 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -235,7 +235,7 @@ class Kpoints(BaseParser):
                 else:
                     centering = 'Monkhorst-Pack'
                 divisions = [int(element) for element in kpoints[3].split()]
-                if len(kpoints) == 5:
+                if len(kpoints) > 4 and kpoints[4].strip():
                     shifts = [float(element) for element in kpoints[4].split()]
             elif third_line_char == 'r':
                 centering = 'Reciprocal'
-- 
2.43.0


From 1481ccfd328cfc1fb14dd7b8c5fb028ed1c698ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 09/74] fix: skip all blank lines between KPOINTS line segments

Only a bare newline was recognized, so blank lines of a string (which carry no
newline) or lines of blanks became points without coordinates.
---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 1f466f6..4209a6c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -257,7 +257,7 @@ class Kpoints(BaseParser):
                 sys.exit(self.ERROR_KPOINTS_NOT_DIRECT)
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
-                if kpoints[true_index] != '\n':
+                if kpoints[true_index].strip():
                     entry = kpoints[true_index].split()[0:3]
                     coordinate = np.asarray([float(element) for element in entry])
                     point = Kpoint(coordinate, 1.0)
-- 
2.43.0


From 762de8cbc00da1611162d85cd0203e43285c1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 10/74] fix: let Kpoints.get return the entry instead of
 raising AttributeError

The entries are stored as they are and have no get_value method.
---
 parsevasp/kpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 4209a6c..34ebbbd 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -799,7 +799,7 @@ class Kpoints(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From 3c7252843d98868d90538b35574b152c3e9c246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 11/74] fix: compare the full entry name when modifying KPOINTS

Substrings were compared, so misspelled entries were stored as new entries,
while generating_vectors, which has its own check, was refused.
---
 parsevasp/kpoints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 34ebbbd..04f667b 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -407,9 +407,10 @@ class Kpoints(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('points' in entry) or ('tetra' in entry) or ('tetra_volume' in entry) or
-                ('divisions' in entry) or ('mode' in entry) or ('num_kpoints' in entry) or ('shifts' in entry) or
-                ('centering') in entry):
+        if entry not in (
+            'comment', 'points', 'tetra', 'tetra_volume', 'divisions', 'generating_vectors', 'mode', 'num_kpoints',
+            'shifts', 'centering'
+        ):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_TAG])
             sys.exit(self.ERROR_INVALID_TAG)
 
-- 
2.43.0


From 8b52a17d48485f646fefd432135c1059ea87df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 12/74] fix: update the number of k-points when points are
 deleted or replaced

The written KPOINTS declared the old number of points and could not be read
back, neither here nor by VASP.
---
 parsevasp/kpoints.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 04f667b..a53873b 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -346,6 +346,14 @@ class Kpoints(BaseParser):
                 self._check_num_kpoints(num_kpoints=value)
 
             self.entries[entry] = value
+            if entry == 'points':
+                self._update_num_kpoints()
+
+    def _update_num_kpoints(self):
+        """Keep the declared number of points in line with the explicit points."""
+
+        if self.entries['mode'] == 'explicit' and self.entries['points'] is not None:
+            self.entries['num_kpoints'] = len(self.entries['points'])
 
     def delete_point(self, point_number):
         """
@@ -362,6 +370,7 @@ class Kpoints(BaseParser):
         self._check_points()
         self._check_point_number(point_number)
         del self.entries['points'][point_number]
+        self._update_num_kpoints()
 
     def add_point(self, point_number):
         """
-- 
2.43.0


From 0c8aa59dc0f7673ce29fc155665601e4c87eeeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 13/74] fix: do not let edits of a Kpoints object alter the
 supplied data

The dictionary and list of points given by the user were stored as they are,
so modify and delete_point changed them, and any other object made from them.
---
 parsevasp/kpoints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index a53873b..277622a 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -120,8 +120,10 @@ class Kpoints(BaseParser):
             # Create dictionary from a string
             self._kpoints_dict = self._from_string()
 
-        # Ctore entries
-        self.entries = self._kpoints_dict
+        # Store entries, make sure edits do not reach back to what the user supplied
+        self.entries = dict(self._kpoints_dict)
+        if isinstance(self.entries.get('points'), list):
+            self.entries['points'] = list(self.entries['points'])
 
         # Validate dictionary
         self._validate()
@@ -326,6 +328,7 @@ class Kpoints(BaseParser):
                         point = self._to_direct(point)
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
                         sys.exit(self.ERROR_CONVERSION)
+                value = list(value)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'divisions':
-- 
2.43.0


From 89a0e04e0217ac5d27a6266116b70b7a6c93088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 14/74] fix: let Poscar.get return the entry instead of raising
 AttributeError

The entries are stored as they are and have no get_value method.
---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 7e2fec3..4eaa810 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -755,7 +755,7 @@ class Poscar(BaseParser):
 
         value = None
         try:
-            value = self.entries[tag].get_value()
+            value = self.entries[tag]
         except KeyError:
             pass
 
-- 
2.43.0


From ca1e5b5edb250bc4bea39af968ac8cefa3f9055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 15/74] fix: treat POSCAR coordinates as cartesian only for the
 c and k keywords

VASP reads the coordinates as direct unless the line starts with c, C, k or K,
here anything but d was silently taken for cartesian.
---
 parsevasp/poscar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 4eaa810..f322e45 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -228,10 +228,10 @@ class Poscar(BaseParser):
             if poscar[7][0].lower() == 's':
                 selective = True
                 loopmax = 9
-                if not poscar[8][0].lower() == 'd':
+                if poscar[8][0].lower() in ('c', 'k'):
                     direct = False
             if not selective:
-                if not poscar[7][0].lower() == 'd':
+                if poscar[7][0].lower() in ('c', 'k'):
                     direct = False
         else:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_VASPFOUR])
-- 
2.43.0


From 7f168eee89e4fc1f464e0f716849632a278e7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 16/74] fix: convert POSCAR velocities according to their own
 header

Direct velocities in a file with cartesian positions were converted as if they
were cartesian, and a Kartesisch header was ignored with its velocities.
---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index f322e45..0b7ce47 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -282,11 +282,11 @@ class Poscar(BaseParser):
         loopmax_pos = nions + loopmax
         if len(poscar) > loopmax_pos:
             first_char = poscar[loopmax_pos][0].lower()
-            if first_char in ('d', 'c'):
+            if first_char in ('d', 'c', 'k'):
                 velocities = True
-                if first_char == 'c':
-                    # Make sure we convert velocities to direct
-                    direct = False
+                # Make sure we convert cartesian velocities, and only those, to
+                # direct, regardless of how the positions are given
+                direct = first_char == 'd'
             elif poscar[loopmax_pos].replace(' ', '') == '\n':
                 predictor = True
         # Now check that the next line is in fact a coordinate
-- 
2.43.0


From 1c41b43fb4c0c637acaea37115d1ee9a855d707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 17/74] fix: accept blank lines at the end of a POSCAR

More than one blank line after the positions, or any after the velocities,
raised an IndexError. Blank lines are now also recognized with tabs or with the
carriage returns of strings.
---
 parsevasp/poscar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 0b7ce47..4a765f6 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -287,13 +287,13 @@ class Poscar(BaseParser):
                 # Make sure we convert cartesian velocities, and only those, to
                 # direct, regardless of how the positions are given
                 direct = first_char == 'd'
-            elif poscar[loopmax_pos].replace(' ', '') == '\n':
+            elif not poscar[loopmax_pos].strip():
                 predictor = True
         # Now check that the next line is in fact a coordinate
         loopmax_pos = loopmax_pos + 1
         # Allow for blank lines at the end of the positions
-        if len(poscar) > loopmax_pos:
-            if not utils.is_number(poscar[loopmax_pos].split()[0]):
+        if any(line.strip() for line in poscar[loopmax_pos:]):
+            if not utils.is_number(''.join(poscar[loopmax_pos].split()[:1])):
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_VEL_OR_PRED])
                 sys.exit(self.ERROR_NO_VEL_OR_PRED)
         else:
@@ -317,9 +317,9 @@ class Poscar(BaseParser):
             # the velocities
             loopmax_pos = nions + loopmax_pos
             if len(poscar) > loopmax_pos:
-                if poscar[loopmax_pos].replace(' ', '') == '\n':
+                if not poscar[loopmax_pos].strip():
                     loopmax_pos = loopmax_pos + 1
-                    if utils.is_number(poscar[loopmax_pos].split()[0]):
+                    if utils.is_number(''.join(''.join(poscar[loopmax_pos:loopmax_pos + 1]).split()[:1])):
                         for i in range(nions):
                             line = poscar[i + loopmax_pos].split()
                             pre = np.zeros(3)
-- 
2.43.0


From 1c2726b265c2c96c4484e99ea4b901a7c29e978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 18/74] fix: use the sites converted from a dictionary and
 leave the supplied data alone

Sites given as dictionaries were converted to Site objects that were thrown
away, so any use of the object failed. Cartesian Site objects were converted in
place, and the supplied dictionary and list of sites were stored as they are, so
edits altered the data of the user and of other objects made from it.
---
 parsevasp/poscar.py | 45 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 4a765f6..a920d13 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -145,31 +145,30 @@ class Poscar(BaseParser):
 
         """
 
-        sites = self._poscar_dict['sites']
+        sites = self._poscar_dict.get('sites')
+        if not isinstance(sites, list):
+            # Leave it for the validation
+            sites = []
+        converted_sites = []
         for site in sites:
-            if not isinstance(site, Site):
+            if isinstance(site, dict):
                 # Entry is not of a Site type, convert it
-                direct = site['direct']
-                position = site['position']
-                velocities = site['velocities']
-                if not direct:
-                    # Convert to direct
-                    position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    if velocities is not None:
-                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                    direct = True
-                site = Site(site['specie'], position, site['selective'], velocities, site['predictors'], direct)
-            else:
-                if not site.get_direct():
-                    # Cartesian, so convert.
-                    position = site.get_position()
-                    velocities = site.get_velocities()
-                    position = self._to_direct(position, self._poscar_dict['unitcell'])
-                    site.set_position(position)
-                    if velocities is not None:
-                        velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
-                        site.set_velocities(velocities)
-                    site.set_direct(True)
+                site = Site(
+                    site['specie'], site['position'], site['selective'], site['velocities'], site['predictors'],
+                    site['direct']
+                )
+            if isinstance(site, Site) and not site.get_direct():
+                # Cartesian, so convert.
+                position = self._to_direct(site.get_position(), self._poscar_dict['unitcell'])
+                velocities = site.get_velocities()
+                if velocities is not None:
+                    velocities = self._to_direct(velocities, self._poscar_dict['unitcell'])
+                site = Site(site.get_specie(), position, site.get_selective(), velocities, site.get_predictors())
+            converted_sites.append(site)
+        # Make sure neither the conversion nor edits reach back to what the user supplied
+        self._poscar_dict = dict(self._poscar_dict)
+        if isinstance(self._poscar_dict.get('sites'), list):
+            self._poscar_dict['sites'] = converted_sites
 
     def _from_list(self, poscar):  # pylint: disable=R0915
         """
-- 
2.43.0


From d7d8a9ad1f87ba4f2ed9317c453f0ace14a2a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 19/74] fix: do not let edits alter the list of sites given to
 Poscar.modify

---
 parsevasp/poscar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index a920d13..0ef2c3d 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -391,6 +391,7 @@ class Poscar(BaseParser):
         else:
             if entry == 'sites':
                 self._check_sites(sites=value)
+                value = list(value)
             if entry == 'comment':
                 self._check_comment(comment=value)
             if entry == 'unitcell':
-- 
2.43.0


From 5245df46ada5a7a02dbdf6da4e150a6e971ed381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 20/74] fix: compare the full entry name when modifying POSCAR

Substrings were compared, so misspelled entries were stored as new entries.
---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 0ef2c3d..e8ffcdf 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -454,7 +454,7 @@ class Poscar(BaseParser):
 
         """
 
-        if not (('comment' in entry) or ('unitcell' in entry) or ('sites' in entry)):
+        if entry not in ('comment', 'unitcell', 'sites'):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_INVALID_ENTRY])
             sys.exit(self.ERROR_INVALID_ENTRY)
 
-- 
2.43.0


From 1d09c8a47f4e08821118c58f66e67b95e10d6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 21/74] fix: check the type of a new comment also when there is
 none yet

The test for an absent comment looked at the stored comment and not at the one
to be checked.
---
 parsevasp/kpoints.py | 2 +-
 parsevasp/poscar.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 277622a..adfd5a9 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -444,7 +444,7 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' should be a string."
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index e8ffcdf..bf0bd54 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -504,7 +504,7 @@ class Poscar(BaseParser):
                 self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
-        if self.entries['comment'] is not None:
+        if comment is not None:
             if not isinstance(comment, str):
                 self._logger.error(
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'comment' is not a string."
-- 
2.43.0


From bb1410e3e1f1fdc076ffba8f09ae5e4fe89f538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 22/74] fix: refuse any combination of several input sources

---
 parsevasp/incar.py   | 16 +++-------------
 parsevasp/kpoints.py | 15 +++------------
 parsevasp/poscar.py  | 15 +++------------
 3 files changed, 9 insertions(+), 37 deletions(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index ad36316..2546a6f 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -71,19 +71,9 @@ class Incar(BaseParser):
             self._prec = prec
         self._width = self._prec + 4
 
-        # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._incar_string is not None and self._incar_dict is not None) or (
-            self._incar_string is not None and self._file_path is not None
-        ) or (self._incar_dict is not None and self._file_path is not None) and self._file_handler is not None:
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
-            sys.exit(self.ERROR_USE_ONE_ARGUMENT)
-
-        # Check that at least one is supplied
-        if (
-            self._incar_string is None and self._incar_dict is None and self._file_path is None and
-            self._file_handler is None
-        ):
+        # Check that one, and only one argument is supplied
+        sources = (self._incar_string, self._incar_dict, self._file_path, self._file_handler)
+        if sum(source is not None for source in sources) != 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index adfd5a9..8800598 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -97,18 +97,9 @@ class Kpoints(BaseParser):
             self._prec = prec
         self._width = self._prec + 4
 
-        # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._kpoints_string is not None and self._kpoints_dict is not None) or (
-            self._kpoints_string is not None and self._file_path is not None
-        ) or (self._kpoints_dict is not None and self._file_path is not None and self._file_handler is not None):
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
-            sys.exit(self.ERROR_USE_ONE_ARGUMENT)
-        # Check that at least one is suplpied
-        if (
-            self._kpoints_string is None and self._kpoints_dict is None and self._file_path is None and
-            self._file_handler is None
-        ):
+        # Check that one, and only one argument is supplied
+        sources = (self._kpoints_string, self._kpoints_dict, self._file_path, self._file_handler)
+        if sum(source is not None for source in sources) != 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index bf0bd54..4b9e69e 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -79,18 +79,9 @@ class Poscar(BaseParser):
         self._poscar_string = poscar_string
         self._conserve_order = conserve_order
 
-        # Check that only one argument is supplied
-        # pylint: disable=R0916
-        if (self._poscar_string is not None and self._poscar_dict is not None) or (
-            self._poscar_string is not None and self._file_path is not None
-        ) or (self._poscar_dict is not None and self._file_path is not None and self._file_handler is not None):
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
-            sys.exit(self.ERROR_USE_ONE_ARGUMENT)
-        # Check that at least one is suplpied
-        if (
-            self._poscar_string is None and self._poscar_dict is None and self._file_path is None and
-            self._file_handler is None
-        ):
+        # Check that one, and only one argument is supplied
+        sources = (self._poscar_string, self._poscar_dict, self._file_path, self._file_handler)
+        if sum(source is not None for source in sources) != 1:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
-- 
2.43.0


From ed0170a10208106f003c88f625039fcfacca1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 23/74] fix: leave the target of a refused write untouched

---
 parsevasp/base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parsevasp/base.py b/parsevasp/base.py
index 249ca50..099c5bd 100644
--- a/parsevasp/base.py
+++ b/parsevasp/base.py
@@ -1,5 +1,6 @@
 """Base class to handle VASP files."""
 # pylint: disable=consider-using-with
+import io
 import logging
 import os
 import sys
@@ -84,15 +85,26 @@ class BaseParser(ABC):  # pylint: disable=R0903
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_USE_ONE_ARGUMENT])
             sys.exit(self.ERROR_USE_ONE_ARGUMENT)
 
+        use_path = 'file_path' in kwargs
         file_path = kwargs.pop('file_path', '')
         file_handler = kwargs.pop('file_handler', '')
+        if use_path and not file_path:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_EMPTY_FILE_PATH])
+            sys.exit(self.ERROR_EMPTY_FILE_PATH)
+        if not use_path and not file_handler:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_EMPTY_HANDLER])
+            sys.exit(self.ERROR_EMPTY_HANDLER)
+
+        # Do the write for each specific content parser _write function, also bring any extra arguments.
+        # We write to memory first such that nothing of the target is lost if the write is refused.
+        string_object = io.StringIO()
+        self._write(string_object, **kwargs)
+
         if file_path:
             # Open file
             file_handler = open_close_file_handler(file_path, status='w', logger=self._logger)
 
-        # Do the write for each specific content parser _write function using handler, also
-        # bring any extra arguments.
-        self._write(file_handler, **kwargs)
+        file_handler.write(string_object.getvalue())
 
         if file_path:
             # Close file
-- 
2.43.0


From b1d99ddfe4e000be439dc54bb4211db8719e2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 24/74] fix: refuse to write POTCAR as for the other read-only
 parsers

---
 parsevasp/potcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2362ea6..2cd29cb 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -208,5 +208,6 @@ class Potcar(BaseParser):
         except Exception as exc:
             raise AttributeError(attribute) from exc
 
-    def _write(self, file_handler, **kwargs):
-        pass
+    def _write(self, *args, **kwargs):
+        """Write not supported for POTCAR."""
+        raise NotImplementedError('Writing POTCAR files is not supported.')
-- 
2.43.0


From f590d21a6a8b9d19c132542543d4ce3ab16be396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 25/74] fix: recognise lines of numbers separated by several
 blanks

---
 parsevasp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 8553284..6457cf0 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -172,7 +172,7 @@ def test_string_content(string):
         return 'string'
 
 
-def is_numbers(string, splitter=' '):
+def is_numbers(string, splitter=None):
     """
     Check if a string only contains numbers.
 
@@ -181,7 +181,7 @@ def is_numbers(string, splitter=' '):
     s: str
         The input string
     splitter : string, optional
-        The splitting character to be used, defaults to blank spaces.
+        The splitting character to be used, defaults to any number of blank spaces.
 
     Returns
     -------
-- 
2.43.0


From bb16a607982b7b598c75cc24da9bd34d9e409215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 26/74] fix: report missing POSCAR keys with the documented
 status

---
 parsevasp/poscar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 4b9e69e..cd7fa46 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -466,7 +466,7 @@ class Poscar(BaseParser):
             try:
                 unitcell = self.entries['unitcell']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'unitcell'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'unitcell'.")
                 sys.exit(self.ERROR_NO_KEY)
 
         if (not isinstance(unitcell, np.ndarray)) \
@@ -492,7 +492,7 @@ class Poscar(BaseParser):
             try:
                 comment = self.entries['comment']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'comment'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'comment'.")
                 sys.exit(self.ERROR_NO_KEY)
         # Allow None for comment
         if comment is not None:
@@ -518,7 +518,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
@@ -539,7 +539,7 @@ class Poscar(BaseParser):
             try:
                 sites = self.entries['sites']
             except KeyError:
-                self._logger.error(self.ERROR_MESSAGES[f"{self.ERROR_NO_KEY} The key in question is 'sites'."])
+                self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'sites'.")
                 sys.exit(self.ERROR_NO_KEY)
             for _site in sites:
                 if not isinstance(_site, Site):
-- 
2.43.0


From 1c38f6276f7756afb0ed2bb5cb650211025ea065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 27/74] fix: refuse POSCAR sites that are not sites

---
 parsevasp/poscar.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index cd7fa46..556f6b9 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -523,6 +523,13 @@ class Poscar(BaseParser):
         if not isinstance(sites, list):
             self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'sites' is not a list.")
             sys.exit(self.ERROR_KEY_INVALID_TYPE)
+        for site in sites:
+            if not isinstance(site, Site):
+                self._logger.error(
+                    f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
+                    "The elements of the key 'sites' are not Site() objects."
+                )
+                sys.exit(self.ERROR_KEY_INVALID_TYPE)
 
     def _check_site(self, site=None):
         """
-- 
2.43.0


From e7752bdacdab89a3768b36eae251cfb72771a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 28/74] fix: refuse KPOINTS entries that are missing or not
 k-points

---
 parsevasp/kpoints.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 8800598..edb8c9e 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -300,8 +300,8 @@ class Kpoints(BaseParser):
         # Check that entries exists
         self._check_dict()
         if point_number is not None:
-            # Check that a Kpoint() object is supplied
-            self._check_point(value)
+            # Check that a Kpoint() object in direct coordinates is supplied
+            self._check_points(points=[value])
             # Check site number
             self._check_point_number(point_number)
             # Check that position is an integer
@@ -394,8 +394,7 @@ class Kpoints(BaseParser):
 
         # Check that at least divisions or points are set
         # to something else than None
-        if ((self.entries['divisions'] is None) and (self.entries['points'] is None) and
-            (self.entries['generating_vectors'] is None)):
+        if all(self.entries.get(key) is None for key in ('divisions', 'points', 'generating_vectors')):
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_DIVISIONS])
             sys.exit(self.ERROR_DIVISIONS)
 
@@ -467,6 +466,14 @@ class Kpoints(BaseParser):
                     f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'points' should be a list."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
+            for point in points:
+                if not isinstance(point, Kpoint):
+                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_WRONG_OBJECT])
+                    sys.exit(self.ERROR_WRONG_OBJECT)
+                # We only support direct coordinates
+                if not point.get_direct():
+                    self._logger.error(self.ERROR_MESSAGES[self.ERROR_CONVERSION])
+                    sys.exit(self.ERROR_CONVERSION)
 
     def _check_point(self, point=None):
         """
-- 
2.43.0


From cfecb75763a537ea03cbc3ccfcfdaab202c0e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 29/74] fix: refuse None as a POSCAR site

---
 parsevasp/poscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 556f6b9..5643fb5 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -371,7 +371,7 @@ class Poscar(BaseParser):
         self._check_dict()
         if site_number is not None:
             # Check that a Site() object is supplied
-            self._check_site(value)
+            self._check_sites(sites=[value])
             # Check site number
             self._check_site_number(site_number)
             # Check that position is an integer
-- 
2.43.0


From c69ef9e3774ba7ca452d504b8b906c3801c8a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 30/74] fix: use one name for the non-symmetrized elastic
 moduli

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index eca8c87..0ce440e 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -44,7 +44,7 @@ class Outcar(BaseParser):
 
         self._data = {
             'elastic_moduli': {
-                'non-symmetrized': None,
+                'non_symmetrized': None,
                 'symmetrized': None,
                 'total': None
             },
-- 
2.43.0


From cfc9a779949ad36e3f6946ecaf65183057010864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 31/74] fix: report the number of primitive cells of the
 supercell

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 0ce440e..cac1a7c 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -161,7 +161,7 @@ class Outcar(BaseParser):
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
-                    text = f'{line.strip().split()} primitive cells'
+                    text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
                     self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
-- 
2.43.0


From a67cb155ca43c7354a8d29355b7d93b501b51d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 32/74] fix: do not stumble over OUTCAR without NSW or NELM

---
 parsevasp/outcar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index cac1a7c..ede9507 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -236,7 +236,7 @@ class Outcar(BaseParser):
         finished = run_status['finished']
         ibrion = params['ibrion']
         if finished is True:
-            if ibrion > 0:
+            if ibrion > 0 and nsw is not None:
                 # There are fewer number of ionic iterations than the set number of maximum number of
                 # ionic iterations (NSW), thus the relaxation is considered converged.
                 # Only relevant to check ionic relaxation convergence when IBRION is larger than zero
@@ -260,7 +260,7 @@ class Outcar(BaseParser):
                 # No ionic relaxation performed
                 run_status['ionic_converged'] = None
 
-            if iter_counter[1] < nelm:
+            if nelm is not None and iter_counter[1] < nelm:
                 # There are fewer number of electronic steps in the last ionic iteration than the set maximum
                 # number of electronic steps, thus the electronic self consistent cycle is considered converged
                 run_status['electronic_converged'] = True
@@ -269,7 +269,7 @@ class Outcar(BaseParser):
         # the relaxation, it will simply consider it converged. We need to detect this, which is done
         # by checking if there are any single run that have reached NELM in the history or if NELM
         # has been consistently reached.
-        mask = [value >= nelm for sc_idx, value in sorted(nelec_steps.items(), key=lambda x: x[0])]
+        mask = [nelm is not None and value >= nelm for sc_idx, value in sorted(nelec_steps.items(), key=lambda x: x[0])]
         if (finished and all(mask)) or \
            (not finished and all(mask[:-1]) and iter_counter[0] > 1):
             # We have consistently reached NELM. Excluded the last iteration,
-- 
2.43.0


From b2ba28a60272594643d6e893447298a9d9aff544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 33/74] fix: do not fail on OUTCAR files that are cut off
 inside a table

---
 parsevasp/outcar.py | 69 ++++++++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index ede9507..cc0246d 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -157,68 +157,61 @@ class Outcar(BaseParser):
                 config = 'dynamic'
             if config:
                 if line.strip().startswith('Subroutine PRICEL returns'):
-                    text = outcar[index + 1].strip().lower()
+                    text = ''.join(outcar[index + 1:index + 2]).strip().lower()
                     if text:
                         self._data['symmetry']['original_cell_type'][config].append('primitive cell')
                 if 'primitive cells build up your supercell' in line:
                     text = f'{line.strip().split()[0]} primitive cells'
                     self._data['symmetry']['original_cell_type'][config].append(text)
                 if line.strip().startswith('Routine SETGRP: Setting up the symmetry group for a'):
-                    self._data['symmetry']['symmetrized_cell_type'][config].append(outcar[index + 1].strip().lower())
+                    text = ''.join(outcar[index + 1:index + 2]).strip().lower()
+                    if text:
+                        self._data['symmetry']['symmetrized_cell_type'][config].append(text)
                 if line.strip().startswith('Subroutine GETGRP returns'):
                     self._data['symmetry']['num_space_group_operations'][config].append(int(line.strip().split()[4]))
 
             # then the elastic tensors etc. in kBar
-            if line.strip().startswith('ELASTIC MODULI  (kBar)'):
+            if line.strip().startswith('ELASTIC MODULI  (kBar)') and len(outcar) > index + 8:
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['non_symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI'):
+            if line.strip().startswith('SYMMETRIZED ELASTIC MODULI') and len(outcar) > index + 8:
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['symmetrized'] = np.asarray(tensor)
-            if line.strip().startswith('TOTAL ELASTIC MODULI'):
+            if line.strip().startswith('TOTAL ELASTIC MODULI') and len(outcar) > index + 8:
                 tensor = []
                 for idx in range(3, 9):
                     tensor.append([float(item) for item in outcar[index + idx].strip().split()[1:]])
                 self._data['elastic_moduli']['total'] = np.asarray(tensor)
             for _proj in ['x', 'y', 'z']:
                 if line.strip().startswith(f'magnetization ({_proj})'):
-                    _counter = 0
-                    mag_found = False
-                    while not mag_found:
-                        if outcar[index + 4 + _counter].strip().split():
-                            if not outcar[index + 4 + _counter].strip().startswith('-') and not outcar[
-                                index + 4 + _counter].strip().startswith('tot'):
-                                mag_line = outcar[index + 4 + _counter].split()
-                                self._data['magnetization']['sphere'][f'{_proj}']['site_moment'][int(mag_line[0])] = {}
-                                for _count, orb in enumerate(mag_line[1:-1]):
-                                    self._data['magnetization']['sphere'][f'{_proj}']['site_moment'][int(
-                                        mag_line[0]
-                                    )][s_orb[_count]] = float(orb)
-                                self._data['magnetization']['sphere'][f'{_proj}']['site_moment'][int(
-                                    mag_line[0]
-                                )]['tot'] = float(mag_line[-1])
-                            if outcar[index + 4 + _counter].strip().startswith('tot'):
-                                mag_line = outcar[index + 4 + _counter].split()
-                                self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = {}
-                                for _count, orb in enumerate(mag_line[1:-1]):
-                                    self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'][
-                                        s_orb[_count]] = float(orb)
-                                self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization']['tot'] = float(
-                                    mag_line[-1]
-                                )
-                                mag_found = True
-                        else:
-                            self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = {}
-                            self._data['magnetization']['sphere'][f'{_proj}']['total_magnetization'] = self._data[
-                                'magnetization']['sphere'][f'{_proj}']['site_moment'][list(
-                                    self._data['magnetization']['sphere'][f'{_proj}']['site_moment'].keys()
-                                )[0]]
-                            mag_found = True
-                        _counter = _counter + 1
+                    site_moment = {}
+                    total_magnetization = None
+                    # Loop the lines of the table, which might not be complete if the calculation was cut off
+                    for table_line in outcar[index + 4:]:
+                        mag_line = table_line.split()
+                        if not mag_line:
+                            if site_moment:
+                                # Only one site, no total is printed
+                                total_magnetization = list(site_moment.values())[0]
+                            break
+                        if mag_line[0].startswith('-'):
+                            continue
+                        moment = {s_orb[_count]: float(orb) for _count, orb in enumerate(mag_line[1:-1])}
+                        moment['tot'] = float(mag_line[-1])
+                        if mag_line[0].startswith('tot'):
+                            total_magnetization = moment
+                            break
+                        site_moment[int(mag_line[0])] = moment
+                    if total_magnetization is not None:
+                        # Only take the last complete table
+                        self._data['magnetization']['sphere'][_proj] = {
+                            'site_moment': site_moment,
+                            'total_magnetization': total_magnetization
+                        }
             if line.strip().startswith('number of electron'):
                 # Only take the last value
                 self._data['magnetization']['full_cell'] = [float(_val) for _val in outcar[index].strip().split()[5:]]
-- 
2.43.0


From 7c923d8593e15fe82a9160626841a46ee755ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 34/74] fix: parse all floats that can be printed in a POTCAR

---
 parsevasp/potcar.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 2cd29cb..a0c88cb 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -113,21 +113,21 @@ class Potcar(BaseParser):
             'IUNSCR': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'NDATA': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
             'ICORE': lambda val: int(re.match(r'^-?[0-9]+', val).group(0)),
-            'EATOM': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RPACOR': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'POMASS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ZVAL': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCORE': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RWIGS': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'ENMIN': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RCLOC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'EAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'DEXC': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RMAX': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RAUG': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEP': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
-            'RDEPT': lambda val: float(re.search(r'^-?\d*\.?\d*[eE]?-?\d*', val).group(0)),
+            'EATOM': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RPACOR': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'POMASS': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'ZVAL': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RCORE': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RWIGS': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'ENMAX': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'ENMIN': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RCLOC': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'EAUG': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'DEXC': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RMAX': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RAUG': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RDEP': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
+            'RDEPT': lambda val: float(re.search(r'^[-+]?\d*\.?\d*(?:[eE][-+]?\d+)?', val).group(0)),
             'STEP': lambda val: [float(y) for y in re.split(r'\s+', val.strip()) if not y.isalpha()],
         }
         search_lines = re.search(
-- 
2.43.0


From 85c774e271d299e832c5eab111100da8a04f74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 35/74] fix: find POTCAR keywords that are not separated by
 blanks

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index a0c88cb..8ad81ce 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -137,7 +137,7 @@ class Potcar(BaseParser):
         ).group(1)
 
         self.metadata = {}
-        for key, val in re.findall(r'(\S+)\s*=\s*(.*?)(?=;|$)', search_lines, flags=re.MULTILINE):
+        for key, val in re.findall(r'([^\s=;]+)[^\S\n]*=[^\S\n]*(.*?)(?=;|$)', search_lines, flags=re.MULTILINE):
             if key in _parameters_to_parse:
                 self.metadata[key] = _parameters_to_parse[key](val)
 
-- 
2.43.0


From 47003fd55f4dd18d43e08f5d7a1ff1a60921bca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 36/74] fix: allow several blanks in the POTCAR title

---
 parsevasp/potcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 8ad81ce..4bddbca 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -142,7 +142,7 @@ class Potcar(BaseParser):
                 self.metadata[key] = _parameters_to_parse[key](val)
 
         try:
-            self._symbol = self.metadata['TITEL'].split(' ')[1].strip()
+            self._symbol = self.metadata['TITEL'].split()[1]
         except IndexError:
             self._symbol = self.metadata['TITEL'].strip()
 
-- 
2.43.0


From 494c77ca6f67e6f84e24edf0508076c21a9077a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 37/74] fix: assign the vasprun structures and forces to the
 step they belong to

---
 parsevasp/vasprun.py | 114 +++++++++++--------------------------------
 1 file changed, 29 insertions(+), 85 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fd31bde..ae2608c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1520,95 +1520,39 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 force[1] = None
                 force[2] = None
         else:
-            structures = self._findall(xml, './/calculation/structure')
-            entrycell = self._findall(xml, './/calculation/structure/crystal/varray[@name="basis"]/v')
-            entrypos = self._findall(xml, './/calculation/structure/varray[@name="positions"]/v')
-            entryforce = self._findall(xml, './/calculation/varray[@name="forces"]/v')
-            entrystress = self._findall(xml, './/calculation/varray[@name="stress"]/v')
-
-            if structures is not None:
-                num_calcs = len(structures)
-            else:
-                return None, None, None, None
-
-            num_entrycell = 0
-            num_entrypos = 0
-            num_entryforce = 0
-            num_entrystress = 0
-
-            if entrycell is not None:
-                num_entrycell = len(entrycell)
-                cell[1] = self._convert_array2D_f(entrycell[0:3], 3)
-                if num_entrycell > 3:
-                    cell[2] = self._convert_array2D_f(entrycell[-3:], 3)
-                else:
-                    cell[2] = None
-            else:
-                cell[1] = None
-                cell[2] = None
-
-            if entrypos is not None:
-                num_entrypos = len(entrypos)
-                pos[1] = self._convert_array2D_f(entrypos[0:num_atoms], 3)
-                if num_entrypos > 3:
-                    pos[2] = self._convert_array2D_f(entrypos[-num_atoms:], 3)
-                else:
-                    pos[2] = None
-            else:
-                pos[1] = None
-                pos[2] = None
-
-            if entryforce is not None:
-                num_entryforce = len(entryforce)
-                force[1] = self._convert_array2D_f(entryforce[0:num_atoms], 3)
-                if num_entryforce > 3:
-                    force[2] = self._convert_array2D_f(entryforce[-num_atoms:], 3)
-                else:
-                    force[2] = None
-            else:
-                force[1] = None
-                force[2] = None
+            calculations = self._findall(xml, './/calculation')
 
-            if entrystress is not None:
-                num_entrystress = len(entrystress)
-                stress[1] = self._convert_array2D_f(entrystress[0:3], 3)
-                if num_entrystress > 3:
-                    stress[2] = self._convert_array2D_f(entrystress[-3:], 3)
-                else:
-                    stress[2] = None
-            else:
-                stress[1] = None
-                stress[2] = None
+            if calculations is None:
+                return None, None, None, None
 
-            max_entries = max(num_entrystress, max(num_entryforce, max(num_entrycell, num_entrypos)))
-            if max_entries > 6:
-                for calc in range(1, num_calcs):
-                    basecell = calc * 3
-                    basepos = calc * num_atoms
-                    if entrycell is not None:
-                        cell[calc + 1] = self._convert_array2D_f(entrycell[basecell:basecell + 3], 3)
-                    if entrypos is not None:
-                        pos[calc + 1] = self._convert_array2D_f(entrypos[basepos:basepos + num_atoms], 3)
-                    if entryforce is not None:
-                        force[calc + 1] = self._convert_array2D_f(entryforce[basepos:basepos + num_atoms], 3)
-                    if entrystress is not None:
-                        stress[calc + 1] = self._convert_array2D_f(entrystress[basecell:basecell + 3], 3)
-
-        # If we still only have one entry, or number two is None, last and initial should
+            # Fetch from each calculation by itself, such that an entry that is not present for one
+            # calculation does not shift the entries of the other calculations.
+            for index, calc in enumerate(calculations):
+                entry = self._findall(calc, './structure/crystal/varray[@name="basis"]/v')
+                if entry is not None:
+                    cell[index + 1] = self._convert_array2D_f(entry, 3)
+                entry = self._findall(calc, './structure/varray[@name="positions"]/v')
+                if entry is not None:
+                    pos[index + 1] = self._convert_array2D_f(entry, 3)
+                entry = self._findall(calc, './varray[@name="forces"]/v')
+                if entry is not None:
+                    force[index + 1] = self._convert_array2D_f(entry, 3)
+                entry = self._findall(calc, './varray[@name="stress"]/v')
+                if entry is not None:
+                    stress[index + 1] = self._convert_array2D_f(entry, 3)
+
+        # If there is only one calculation, or number two is None, last and initial should
         # be the same, force them to be similar. We could do this earlier, but this is done
         # to keep it tidy, and if one in the future would like to utilize the returned None.
-        if cell:
-            if len(cell) == 1 or cell[2] is None:
-                cell[2] = cell[1]
-        if pos:
-            if len(pos) == 1 or pos[2] is None:
-                pos[2] = pos[1]
-        if force:
-            if len(force) == 1 or force[2] is None:
-                force[2] = force[1]
-        if stress:
-            if len(stress) == 1 or stress[2] is None:
-                stress[2] = stress[1]
+        for entries in (cell, pos, force, stress):
+            if entries and entries.get(2) is None and (not extract_all or len(calculations) == 1):
+                entries[2] = entries[1]
+
+        # Make sure quantities that are not present are not represented by empty entries
+        cell, pos, force, stress = (
+            entries if any(entry is not None for entry in entries.values()) else None
+            for entries in (cell, pos, force, stress)
+        )
 
         return cell, pos, force, stress
 
-- 
2.43.0


From 28f1d8bbaf01e7d45a1185303ae57b00fdb506f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 38/74] fix: keep the vasprun energies of the completed steps
 if one step has none

---
 parsevasp/vasprun.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ae2608c..8db7028 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -368,6 +368,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 data4 = self._convert_array1D_f(data4)
                 data5 = self._convert_array1D_f(data5)
                 totens[calc].update({'energy_extrapolated': data3, 'energy_free': data4, 'energy_no_entropy': data5})
+                if any(energies.size == 0 for energies in (data3, data4, data5)) or \
+                   any(key + '_final' not in totens[calc] for key in _SUPPORTED_TOTAL_ENERGIES):
+                    # Only store the calculations that have all the energies
+                    del totens[calc]
                 data3 = []
                 data4 = []
                 data5 = []
@@ -1067,22 +1071,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not stress:
             stress = None
 
-        # Check totens for entries, if all arrays empty and no float detected set force totens to None
-        found_totens = False
-        for energies in totens.values():
-            for value in energies.values():
-                try:
-                    if value.size != 0:
-                        # Fails if there is a float for value and if there is a float, there is a value, so
-                        # protected by try block, or we have entries for the array values.
-                        found_totens = True
-                        break
-                except AttributeError:
-                    found_totens = True
-            if found_totens:
-                break
-
-        if not found_totens:
+        if not totens:
             totens = None
 
         # Store
@@ -1952,7 +1941,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             for supported_energy, supported_key in _SUPPORTED_TOTAL_ENERGIES.items():
                 data = self._findall(calc, './/scstep/energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
+                    break
                 data = self._convert_array1D_f(data)
                 energies_pr_calc[supported_energy] = data
 
@@ -1961,10 +1950,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 # extrapolated energy
                 data = self._findall(calc, './energy/i[@name="' + supported_key + '"]')
                 if data is None:
-                    return None
+                    break
                 data = self._convert_f(data[0])
                 energies_pr_calc[supported_energy + '_final'] = data
-            energies[index + 1] = energies_pr_calc
+            else:
+                # Only store the calculations that have all the energies, the last one
+                # might have been interrupted
+                energies[index + 1] = energies_pr_calc
+
+        if not energies:
+            return None
 
         return energies
 
-- 
2.43.0


From e0734c1d9d59a47253cebd36ae947eafde429c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 39/74] fix: do not mix the regular and interpolated density of
 states of vasprun.xml

---
 parsevasp/vasprun.py | 94 ++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 48 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8db7028..ab8ce70 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -520,6 +520,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
                     self._data['dos'] = copy.deepcopy(dos)
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -589,7 +590,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         _dos['fermi_level'] = fermi_level
                         dos['total'] = _dos
-                    self._data['dos_specific'] = dos
+                    self._data['dos_specific'] = copy.deepcopy(dos)
+                    dos = {}
                     data = []
                     data2 = []
                     data6 = []
@@ -1980,8 +1982,43 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        # The density of states on the regular k-point grid and the one for specific k-point
+        # grids are only distinguished by a comment
+        sections = {'regular': None, 'interpolated': None}
+        for section in self._findall(xml, './/calculation/dos') or []:
+            if section.attrib.get('comment') == 'interpolated':
+                sections['interpolated'] = section
+            elif section.attrib.get('comment') is None:
+                sections['regular'] = section
+
+        dos = self._fetch_dos_section(xml, sections['regular'])
+        dos_specific = self._fetch_dos_section(xml, sections['interpolated'])
+
+        return dos, dos_specific
+
+    def _fetch_dos_section(self, xml, section):
+        """
+        Fetch the density of states of one dos section.
+
+        Parameters
+        ----------
+        xml : object
+            An ElementTree object to be used for parsing.
+        section : object
+            An Element object containing the dos section. Can be None.
+
+        Returns
+        -------
+        dos : dict
+            See `_extract_dos`. None if there is no density of states.
+
+        """
+
+        if section is None:
+            return None
+
         # Fetch the Fermi level
-        entry = self._find(xml, './/calculation/dos/i[@name="efermi"]')
+        entry = self._find(section, './i[@name="efermi"]')
 
         if entry is not None:
             fermi_level = self._convert_f(entry)
@@ -1989,20 +2026,20 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             fermi_level = None
 
         # Spin 1
-        entry_total_ispin1 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 1"]/r')
+        entry_total_ispin1 = self._findall(section, './total/array/set/set[@comment="spin 1"]/r')
 
         # Spin 2
-        entry_total_ispin2 = self._findall(xml, './/calculation/dos/total/array/set/set[@comment="spin 2"]/r')
+        entry_total_ispin2 = self._findall(section, './total/array/set/set[@comment="spin 2"]/r')
 
         # Partial spin 1
-        entry_partial_ispin1 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 1"]/r')
+        entry_partial_ispin1 = self._findall(section, './partial/array/set/set/set[@comment="spin 1"]/r')
 
         # Partial spin 2
-        entry_partial_ispin2 = self._findall(xml, './/calculation/dos/partial/array/set/set/set[@comment="spin 2"]/r')
+        entry_partial_ispin2 = self._findall(section, './partial/array/set/set/set[@comment="spin 2"]/r')
 
         # If no entries for spin 1, eject right away
         if entry_total_ispin1 is None:
-            return None, None
+            return None
 
         num_atoms = 0
         species = self._lattice['species']
@@ -2011,52 +2048,13 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # and thus we cannot parse the entries in here either.
             species = self._fetch_speciesw(xml)
             if species is None:
-                return None, None
+                return None
         num_atoms = species.shape[0]
 
-        dos = self._extract_dos(
-            entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
-        )
-
-        # Now extract the density of states for specific k-point grids
-        # fetch the Fermi level again as this can be different
-        entry = self._find(xml, './/calculation/dos[@comment="interpolated"]/i[@name="efermi"]')
-
-        if entry is not None:
-            fermi_level = self._convert_f(entry)
-        else:
-            fermi_level = None
-
-        # Spin 1
-        entry_total_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 1"]/r'
-        )
-
-        # Spin 2
-        entry_total_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/total/array/set/set[@comment="spin 2"]/r'
-        )
-
-        # Partial spin 1
-        entry_partial_ispin1 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 1"]/r'
-        )
-
-        # Partial spin 2
-        entry_partial_ispin2 = self._findall(
-            xml, './/calculation/dos[@comment="interpolated"]/partial/array/set/set/set[@comment="spin 2"]/r'
-        )
-
-        # If no entries for spin 1, eject right away
-        if entry_total_ispin1 is None:
-            return dos, None
-
-        dos_specific = self._extract_dos(
+        return self._extract_dos(
             entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
         )
 
-        return dos, dos_specific
-
     def _extract_dos(
         self, entry_total_ispin1, entry_total_ispin2, entry_partial_ispin1, entry_partial_ispin2, fermi_level, num_atoms
     ):
-- 
2.43.0


From 839e4fd2087c3320f37d54d90c61983f5bd94727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 40/74] fix: return the first dielectric function and the
 dielectric tensors of vasprun.xml

---
 parsevasp/vasprun.py | 51 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index ab8ce70..b953d2c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -285,6 +285,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         dos = {}
         totens = {}
         dynmat = {}
+        diel = {}
         _dos = {}
         _dos2 = {}
 
@@ -673,14 +674,18 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dielectricfunction':
                     extract_dielectrics = True
                 if event == 'end' and element.tag == 'dielectricfunction':
-                    _diel = {}
-                    diel = np.split(self._convert_array2D_f(data, 7), 2)
-                    _diel['energy'] = diel[0][:, 0]
-                    _diel['imag'] = diel[0][:, 1:7]
-                    _diel['real'] = diel[1][:, 1:7]
-                    self._data['dielectrics'] = _diel
+                    # There can be several dielectric functions (e.g. density-density followed by
+                    # current-current), use the first one
+                    if 'energy' not in diel:
+                        _diel = np.split(self._convert_array2D_f(data, 7), 2)
+                        diel['energy'] = _diel[0][:, 0]
+                        diel['imag'] = _diel[0][:, 1:7]
+                        diel['real'] = _diel[1][:, 1:7]
                     data = []
                     extract_dielectrics = False
+                if event == 'end' and element.tag == 'varray' and \
+                   element.attrib.get('name') in ('epsilon', 'epsilon_ion'):
+                    diel[element.attrib['name']] = self._convert_array2D_f(element.findall('v'), 3)
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
@@ -1075,6 +1080,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         if not totens:
             totens = None
+        if diel:
+            diel = {key: diel.get(key) for key in ('energy', 'imag', 'real', 'epsilon', 'epsilon_ion')}
+        else:
+            diel = None
 
         # Store
         self._lattice['unitcell'] = cell
@@ -1082,6 +1091,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['forces'] = force
         self._data['stress'] = stress
         self._data['totens'] = totens
+        self._data['dielectrics'] = diel
 
     def _fetch_versionw(self, xml):
         """
@@ -2208,8 +2218,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 tag = 'dielectricfunction'
 
+            # There can be several dielectric functions (e.g. density-density followed by
+            # current-current), use the first one
+            function = self._find(xml, './/calculation/' + tag)
+
             # imaginary part
-            entry = self._findall(xml, './/calculation/' + tag + '/imag/array/set/r')
+            entry = None
+            if function is not None:
+                entry = self._findall(function, './imag/array/set/r')
             if entry is None:
                 diel['imag'] = None
                 diel['energy'] = None
@@ -2219,7 +2235,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 diel['imag'] = data[:, 1:7]
 
             # real part
-            entry = self._findall(xml, './/calculation/' + tag + '/real/array/set/r')
+            entry = None
+            if function is not None:
+                entry = self._findall(function, './real/array/set/r')
             if entry is None:
                 diel['real'] = None
             else:
@@ -2240,6 +2258,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 diel['epsilon_ion'] = None
 
+            if all(value is None for value in diel.values()):
+                return None
+
             return diel
 
         # if method == "qp":
@@ -2908,7 +2929,17 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
     def get_epsilon(self):
         """
-        Return the """
+        Return the macroscopic dielectric tensor.
+
+        Returns
+        -------
+        epsilon : ndarray
+            A 3x3 tensor containing the macroscopic dielectric tensor. None if not present.
+
+        """
+
+        if self._data['dielectrics'] is None:
+            return None
         epsilon = self._data['dielectrics']['epsilon']
         return epsilon
 
@@ -2924,6 +2955,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dielectrics'] is None:
+            return None
         epsilon_ion = self._data['dielectrics']['epsilon_ion']
         return epsilon_ion
 
-- 
2.43.0


From 46b47bad6d31fca48d35a04a8d0236991a1e0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 41/74] fix: read values in event mode of vasprun.xml when the
 element is complete

---
 parsevasp/vasprun.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index b953d2c..224eb5c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -397,57 +397,57 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             if event == 'end' and element.tag == 'projected':
                 extract_projected = False
 
-            # Now fetch the data
+            # Now fetch the data, the content of an element is only guaranteed to be there when it ends
             if extract_generator:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'version':
+                    if event == 'end' and element.attrib['name'] == 'version':
                         self._version = element.text
                 except KeyError:
                     pass
             if extract_parameters:
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYMPREC':
+                    if event == 'end' and element.attrib['name'] == 'SYMPREC':
                         self._parameters['symprec'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISPIN':
+                    if event == 'end' and element.attrib['name'] == 'ISPIN':
                         self._parameters['ispin'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'ISMEAR':
+                    if event == 'end' and element.attrib['name'] == 'ISMEAR':
                         self._parameters['ismear'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SIGMA':
+                    if event == 'end' and element.attrib['name'] == 'SIGMA':
                         self._parameters['sigma'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NBANDS':
+                    if event == 'end' and element.attrib['name'] == 'NBANDS':
                         self._parameters['nbands'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELECT':
+                    if event == 'end' and element.attrib['name'] == 'NELECT':
                         self._parameters['nelect'] = self._convert_f(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'SYSTEM':
+                    if event == 'end' and element.attrib['name'] == 'SYSTEM':
                         self._parameters['system'] = element.text
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NELM' \
+                    if event == 'end' and element.attrib['name'] == 'NELM' \
                         and element.getparent().attrib['name'] == 'electronic convergence':
                         self._parameters['nelm'] = self._convert_i(element)
                 except KeyError:
                     pass
                 try:
-                    if event == 'start' and element.attrib['name'] == 'NSW':
+                    if event == 'end' and element.attrib['name'] == 'NSW':
                         self._parameters['nsw'] = self._convert_i(element)
                 except KeyError:
                     pass
@@ -783,15 +783,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
                 if extract_energies:
                     # Extrapolated energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
                         totens[calc].update({'energy_extrapolated_final': float(element.text)})
                     # Free energy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
                         totens[calc].update({'energy_free_final': float(element.text)})
                     # Energy without entropy
-                    if event == 'start' and element.tag == 'i' and \
+                    if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
                         totens[calc].update({'energy_no_entropy_final': float(element.text)})
 
@@ -977,7 +977,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         if event == 'start' and element.tag == 'v':
                             data.append(element)
                     try:
-                        if event == 'start' and \
+                        if event == 'end' and \
                            element.attrib['name'] == 'eigenvalues':
                             dynmat['eigenvalues'] = self._convert_array_f(element)
                     except KeyError:
@@ -993,7 +993,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
             if extract_kpointdata:
                 try:
-                    if event == 'start' and element.tag == 'v' and \
+                    if event == 'end' and element.tag == 'v' and \
                        element.attrib['name'] == 'divisions':
                         self._lattice['kpointdiv'] = self._convert_array_i(element)
                 except KeyError:
-- 
2.43.0


From 2559967c48701be2481901be823fdfadacbca837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 42/74] fix: support any number of orbitals in vasprun.xml
 projections

---
 parsevasp/vasprun.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 224eb5c..025f89c 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -488,16 +488,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, len(data2[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos:
@@ -559,16 +559,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
                     if data2:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
-                        dos_ispin = self._convert_array2D_f(data2, 10)
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
+                        dos_ispin = self._convert_array2D_f(data2, len(data2[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos2['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     else:
-                        dos_ispin = self._convert_array2D_f(data, 10)
+                        dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
-                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                        _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
                     data = []
                     data2 = []
                 if event == 'end' and element.tag == 'dos' and extract_dos_specific:
@@ -2108,9 +2108,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosup['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, len(entry_partial_ispin1[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosup['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosup['partial'] = None
             dos['up'] = _dosup
@@ -2118,9 +2118,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dosdown['total'] = dos_ispin[:, 1]
             _dosdown['integrated'] = dos_ispin[:, 2]
             if entry_partial_ispin2:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin2, len(entry_partial_ispin2[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dosdown['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dosdown['partial'] = None
             dos['down'] = _dosdown
@@ -2135,9 +2135,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             _dos['integrated'] = dos_ispin[:, 2]
             # check if partial exists
             if entry_partial_ispin1:
-                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, 10)
+                dos_ispin = self._convert_array2D_f(entry_partial_ispin1, len(entry_partial_ispin1[0].text.split()))
                 # do not need the energy term (similar to total)
-                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:10], num_atoms))
+                _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
             else:
                 _dos['partial'] = None
             _dos['fermi_level'] = fermi_level
@@ -2556,14 +2556,16 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if len(spin1) != num_bands * num_kpoints * num_atoms:
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
             sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-        pdata.append(self._convert_array2D_f(spin1, 9))
+        # Number of orbitals depends on what was projected (l or lm and the presence of f-electrons)
+        num_orbitals = len(spin1[0].text.split())
+        pdata.append(self._convert_array2D_f(spin1, num_orbitals))
         pdata[0] = np.asarray(np.split(pdata[0], num_kpoints))
         pdata[0] = np.asarray(np.split(pdata[0], num_bands, axis=1))
         if spin2 is not None:
             if len(spin2) != num_bands * num_kpoints * num_atoms:
                 self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
                 sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
-            pdata.append(self._convert_array2D_f(spin2, 9))
+            pdata.append(self._convert_array2D_f(spin2, num_orbitals))
             pdata[1] = np.asarray(np.split(pdata[1], num_kpoints))
             pdata[1] = np.asarray(np.split(pdata[1], num_bands, axis=1))
 
-- 
2.43.0


From d4ba164e722a5bb59e78e42994a3c6d18c08f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 43/74] fix: detect all overflows in vasprun.xml

---
 parsevasp/vasprun.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 025f89c..bca73b2 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -785,15 +785,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     # Extrapolated energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_0_energy':
-                        totens[calc].update({'energy_extrapolated_final': float(element.text)})
+                        totens[calc].update({'energy_extrapolated_final': self._convert_f(element)})
                     # Free energy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_fr_energy':
-                        totens[calc].update({'energy_free_final': float(element.text)})
+                        totens[calc].update({'energy_free_final': self._convert_f(element)})
                     # Energy without entropy
                     if event == 'end' and element.tag == 'i' and \
                        element.attrib['name'] == 'e_wo_entrp':
-                        totens[calc].update({'energy_no_entropy_final': float(element.text)})
+                        totens[calc].update({'energy_no_entropy_final': self._convert_f(element)})
 
                 if extract_eigenvalues:
                     if event == 'start' and element.tag == 'set' \
@@ -2586,6 +2586,21 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         return projectors
 
+    def _check_overflow(self, entry):
+        """
+        Check that all the numbers fitted in the field they were printed in.
+
+        Parameters
+        ----------
+        entry : object
+            An Element object containing numbers.
+
+        """
+
+        if entry.text is not None and '****' in entry.text:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
+            sys.exit(self.ERROR_OVERFLOW)
+
     def _convert_array_i(self, entry):
         """
         Convert the input entry to numpy array.
@@ -2606,12 +2621,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            self._check_overflow(entry)
             try:
                 data = np.fromstring(entry.text, sep=' ', dtype='intc')
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                raise
 
         return data
 
@@ -2635,12 +2652,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry is not None:
+            self._check_overflow(entry)
             try:
                 data = np.fromstring(entry.text, sep=' ', dtype='double')
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                raise
 
         return data
 
@@ -2666,12 +2685,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='intc')
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                raise
 
         return data
 
@@ -2698,12 +2719,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry is not None:
             data = np.zeros(len(entry), dtype='double')
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                raise
 
         return data
 
@@ -2733,12 +2756,14 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             data = np.zeros((len(entry), dim), dtype='double')
 
         for index, element in enumerate(entry):
+            self._check_overflow(element)
             try:
                 data[index] = np.fromstring(element.text, sep=' ')
             except ValueError as err:
                 if str(err) == 'setting an array element with a sequence.':
                     self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
                     sys.exit(self.ERROR_OVERFLOW)
+                raise
 
         return data
 
@@ -2760,9 +2785,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry.text is not None:
-            if '****' in entry.text:
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                sys.exit(self.ERROR_OVERFLOW)
+            self._check_overflow(entry)
             data = float(entry.text)
 
         return data
@@ -2785,9 +2808,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         data = None
         if entry.text is not None:
-            if '****' in entry.text:
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_OVERFLOW])
-                sys.exit(self.ERROR_OVERFLOW)
+            self._check_overflow(entry)
             data = int(entry.text)
 
         return data
-- 
2.43.0


From 6f04384724daffed174031a3b9e96dccdc3846af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 44/74] fix: complete vasprun.xml that is short, ends with
 blank lines or comes from a text handler is not truncated

---
 parsevasp/vasprun.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index bca73b2..f6587d0 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -3636,24 +3636,21 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
-        last_line = ''
-        xml_truncated = True
         # We here use seek to get the last kilobyte of the file and check that
         # it is truncated correctly. We can not use fileno as the file handler is not
         # always on a file system.
-        shift = self._file_size - 1024
-        if shift > 0:
-            if self._file_handler is not None:
-                self._file_handler.seek(shift)
-                last_line = self._file_handler.readlines()[-1]
-                # Reset pointer
-                self._file_handler.seek(0)
-            else:
-                with open(self._file_path, 'rb') as file_handler:
-                    file_handler.seek(shift)
-                    last_line = file_handler.readlines()[-1]
-            if b'</modeling>' in last_line:
-                # The XML file is not truncated.
-                xml_truncated = False
-
-        self._xml_truncated = xml_truncated
+        shift = max(0, self._file_size - 1024)
+        if self._file_handler is not None:
+            self._file_handler.seek(shift)
+            last_part = self._file_handler.read()
+            # Reset pointer
+            self._file_handler.seek(0)
+        else:
+            with open(self._file_path, 'rb') as file_handler:
+                file_handler.seek(shift)
+                last_part = file_handler.read()
+        if isinstance(last_part, str):
+            # The handler can also be opened in text mode
+            last_part = last_part.encode(errors='replace')
+
+        self._xml_truncated = b'</modeling>' not in last_part
-- 
2.43.0


From 4b3ce76511ea24cc197558dd4e1cd4b248e9e9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 45/74] fix: a vasprun.xml path without a file ends with its
 exit status

---
 parsevasp/vasprun.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index f6587d0..212665f 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -7,7 +7,7 @@ import sys
 
 import numpy as np
 
-from parsevasp import constants, utils
+from parsevasp import constants
 from parsevasp.base import BaseParser
 
 # Try to import lxml, if not present fall back to
@@ -3609,9 +3609,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             return None
         if self._file_handler is None:
             # check if file exists
-            if not utils.file_exists(self._file_path, logger=self._logger):
-                self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SIZE])
-                return None
+            self._check_file()
 
             # Size given in bytes, assuming it is a file and it sits in a filesystem
             file_size = os.stat(self._file_path).st_size
-- 
2.43.0


From f4486677f46129cc8b834b1eec1249956dd915ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 46/74] fix: Fermi level and version not present in vasprun.xml
 are None

---
 parsevasp/vasprun.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 212665f..efaf704 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2994,6 +2994,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos'] is None:
+            return None
         fermi_level = self._data['dos']['total']['fermi_level']
         return fermi_level
 
@@ -3009,6 +3011,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         """
 
+        if self._data['dos_specific'] is None:
+            return None
         fermi_level_specific = self._data['dos_specific']['total']['fermi_level']
         return fermi_level_specific
 
@@ -3527,6 +3531,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         import re
 
+        if self._version is None:
+            return None
+
         version = self._version.strip()
         # The version entry in the xml file is typically of the form
         # X.Y.Z or X.Y.Z.something so only keep three integers and two dots
-- 
2.43.0


From 8884aafa727891a70535e9ef1383d6df50185104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 47/74] fix: vasprun.xml handlers opened in text mode can be
 read

---
 parsevasp/vasprun.py | 50 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index efaf704..2283ad7 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -35,6 +35,27 @@ _SUPPORTED_TOTAL_ENERGIES = {
 }
 
 
+class _TextAsBytes:  # pylint: disable=R0903
+    """Reads bytes from a handler opened in text mode."""
+
+    def __init__(self, file_handler):
+        """
+        Initialize the reader.
+
+        Parameters
+        ----------
+        file_handler : object
+            A file like object opened in text mode.
+
+        """
+
+        self._file_handler = file_handler
+
+    def read(self, size=-1):
+        """Read the next part, in a form that is valid for any encoding the document declares."""
+        return self._file_handler.read(size).encode('ascii', 'xmlcharrefreplace')
+
+
 class Xml(BaseParser):  #  pylint: disable=R0902, R0904
     """Class to handle vasprun.xml."""
 
@@ -204,16 +225,32 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             # Event based, saves a bit of memory
             self._parsee()
 
+    def _get_source(self):
+        """
+        Returns what the content should be read from.
+
+        Returns
+        -------
+        source : string or object
+            The file path or an object from which the content can be read as bytes.
+
+        """
+
+        if self._file_handler is None:
+            return self._file_path
+        if isinstance(self._file_handler.read(0), str):
+            # The document declares its own encoding, so it can not be supplied as text
+            return _TextAsBytes(self._file_handler)
+
+        return self._file_handler
+
     def _parsew(self, xml_truncated):
         """Performs parsing on the whole XML files. For smaller files."""
 
         self._logger.debug('Running parsew.')
 
         # Now open the complete file, we have already checked its presence when we checked the recover.
-        if self._file_handler is None:
-            filer = self._file_path
-        else:
-            filer = self._file_handler
+        filer = self._get_source()
 
         # Make sure we enable the recovery mode
         # pretty sure there is a performance bottleneck running this
@@ -340,10 +377,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Do we want to extract data from all calculations (e.g. ionic steps)
         # extract_all = self._extract_all
 
-        if self._file_handler is None:
-            filer = self._file_path
-        else:
-            filer = self._file_handler
+        filer = self._get_source()
 
         # Index that control the calculation step (e.g. ionic step)
         calc = 1
-- 
2.43.0


From 4ee71dda7179af733513ac27b349e10c05a05ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 48/74] fix: the entry being written when a vasprun.xml was cut
 off is not used

---
 parsevasp/vasprun.py | 54 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 2283ad7..8ab8beb 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -34,6 +34,9 @@ _SUPPORTED_TOTAL_ENERGIES = {
     'energy_no_entropy': 'e_wo_entrp'
 }
 
+# The elements in which each of the children is useful by itself
+_TRUNCATABLE = ('modeling', 'generator', 'parameters', 'separator', 'atominfo', 'kpoints', 'calculation')
+
 
 class _TextAsBytes:  # pylint: disable=R0903
     """Reads bytes from a handler opened in text mode."""
@@ -257,10 +260,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # enabled at all times, so consider to add check for
         # truncated XML files and then enable
         if USE_LXML and xml_truncated:
-            if xml_truncated:
-                self._logger.debug('Running LXML in recovery mode.')
-            parser = etree.XMLParser(recover=True)
-            vaspxml = etree.parse(filer, parser=parser)
+            self._logger.debug('Running LXML in recovery mode.')
+            vaspxml = self._parse_truncated(filer)
         else:
             vaspxml = etree.parse(filer)
 
@@ -296,6 +297,51 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         self._data['dynmat'] = self._fetch_dynmatw(vaspxml)
         self._data['born'] = self._fetch_bornw(vaspxml)
 
+    @staticmethod
+    def _parse_truncated(source):
+        """
+        Parse a truncated XML file.
+
+        Parameters
+        ----------
+        source : string or object
+            The file path or an object from which the content can be read as bytes.
+
+        Returns
+        -------
+        xml : object
+            An ElementTree object with the content up to the truncation. The entry that was
+            being written at the truncation is not part of it.
+
+        """
+
+        parser = etree.XMLPullParser(events=('start', 'end'), recover=True)
+        open_elements = []
+        file_handler = open(source, 'rb') if isinstance(source, (str, os.PathLike)) else source  # pylint: disable=R1732
+        try:
+            while True:
+                content = file_handler.read(1048576)
+                if not content:
+                    break
+                parser.feed(content)
+                for event, element in parser.read_events():
+                    if event == 'start':
+                        open_elements.append(element)
+                    else:
+                        open_elements.pop()
+        finally:
+            if file_handler is not source:
+                file_handler.close()
+
+        # Remove the entry that is not complete
+        root = parser.close()
+        for element in open_elements:
+            if element.tag not in _TRUNCATABLE and element is not root:
+                element.getparent().remove(element)
+                break
+
+        return etree.ElementTree(root)
+
     def _parsee(self):  # pylint: disable=R0915
         """
         Performs parsing in an event driven fashion on the XML file.
-- 
2.43.0


From 2e11bc2731211bb3589bd28cfccfc5de2cf47254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 49/74] fix: last structure of a vasprun.xml that was cut off

---
 parsevasp/vasprun.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 8ab8beb..10100f4 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -1564,8 +1564,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
 
         if not extract_all:
             entry = self._findall(xml, './/structure[@name="finalpos"]/crystal/varray[@name="basis"]/v')
+            if entry is None:
+                # The final structure is only written when VASP ends, use the one from the last calculation
+                entry = self._findall(xml, './/calculation/structure/crystal/varray[@name="basis"]/v')
             if entry is not None:
-                cell[2] = self._convert_array2D_f(entry, 3)
+                cell[2] = self._convert_array2D_f(entry[-3:], 3)
             else:
                 cell[2] = None
             entry = self._findall(xml, './/structure[@name="initialpos"]/crystal/varray[@name="basis"]/v')
@@ -1574,8 +1577,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             else:
                 cell[1] = None
             entry = self._findall(xml, './/structure[@name="finalpos"]/varray[@name="positions"]/v')
+            if entry is None:
+                entry = self._findall(xml, './/calculation/structure/varray[@name="positions"]/v')
             if entry is not None:
-                pos[2] = self._convert_array2D_f(entry, 3)
+                pos[2] = self._convert_array2D_f(entry[-num_atoms:], 3)
             else:
                 pos[2] = None
             entry = self._findall(xml, './/structure[@name="initialpos"]/varray[@name="positions"]/v')
-- 
2.43.0


From f5e26c27ba054b36108b20906830d05504e63ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 50/74] fix: only extract the initial and last step in the
 event mode when requested

---
 parsevasp/vasprun.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 10100f4..af404ab 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -420,9 +420,6 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         extract_hessian = False
         extract_born = False
 
-        # Do we want to extract data from all calculations (e.g. ionic steps)
-        # extract_all = self._extract_all
-
         filer = self._get_source()
 
         # Index that control the calculation step (e.g. ionic step)
@@ -1158,6 +1155,15 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if not stress:
             stress = None
 
+        if not self._extract_all:
+            # Only the initial and last are requested
+            cell, pos, force, stress = (
+                entries if entries is None else {
+                    1: entries[min(entries)],
+                    2: entries[max(entries)]
+                } for entries in (cell, pos, force, stress)
+            )
+
         if not totens:
             totens = None
         if diel:
-- 
2.43.0


From 14eeeab99374326db102cb49b46f6c4cb202fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 51/74] fix: partial density of states of a non-collinear
 calculation in the event mode

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index af404ab..2ca3099 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -564,7 +564,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2:
                         dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
@@ -635,7 +635,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     else:
                         self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
                         sys.exit(self.ERROR_NO_SPECIES)
-                    if data2:
+                    if _dos2:
                         dos_ispin = self._convert_array2D_f(data, len(data[0].text.split()))
                         # Do not need the energy term (similar to total)
                         _dos['partial'] = np.asarray(np.split(dos_ispin[:, 1:], num_atoms))
-- 
2.43.0


From 250c7e3af523eb31ea3aa9800b3c09b1e1495252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 52/74] fix: eigenvalues in a vasprun.xml without k-points end
 with the exit status

---
 parsevasp/vasprun.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 2ca3099..06a0390 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -711,6 +711,9 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
+                    if self._lattice['kpoints'] is None:
+                        self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+                        sys.exit(self.ERROR_NO_KPOINTS)
                     num_kpoints = len(self._lattice['kpoints'])
                     if not data2:
                         eigenvalues, occupancies = self._extract_eigenvalues(data, None, num_kpoints)
@@ -1866,6 +1869,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if entry_ispin1 is None:
             return None, None
 
+        if self._lattice['kpoints'] is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_KPOINTS])
+            sys.exit(self.ERROR_NO_KPOINTS)
+
         eigenvalues, occupancies = self._extract_eigenvalues(entry_ispin1, entry_ispin2, len(self._lattice['kpoints']))
 
         return eigenvalues, occupancies
-- 
2.43.0


From 3ce5ae56ca702932f403610831733a12e23d9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 53/74] fix: dynmat without phonon modes is None in the event
 mode

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 06a0390..fea0457 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -769,7 +769,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                 if event == 'start' and element.tag == 'dynmat':
                     extract_dynmat = True
                 if event == 'end' and element.tag == 'dynmat':
-                    self._data['dynmat'] = dynmat
+                    self._data['dynmat'] = dynmat or None
                     extract_dynmat = False
                 if event == 'start' and element.tag == 'array':
                     # A bit of special threatment here as there is
-- 
2.43.0


From fe6f582ec3a8873d0feceb209c5aee09fcc7af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 54/74] fix: CHGCAR header that ends with blanks or a CRLF line

---
 parsevasp/chgcar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 636b7ac..cb83b72 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -1,4 +1,5 @@
 """Handle CHGCAR."""
+import re
 import sys
 
 import numpy as np
@@ -61,8 +62,8 @@ class Chgcar(BaseParser):
 
         """
         content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
-        # Extract header
-        temp = content.split('\n\n', 1)
+        # Extract header, which ends at the first blank line
+        temp = re.split(r'\n[ \t\r]*\n', content, maxsplit=1)
         header = temp[0]
         content = temp[1]
         header = header.split('\n')
-- 
2.43.0


From 8e724ae0d5cba7b1ad15504bd16dda7af06cf4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 55/74] fix: cell volume of CHGCAR is positive for a
 left-handed cell

---
 parsevasp/chgcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index cb83b72..f46c6c4 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -76,7 +76,7 @@ class Chgcar(BaseParser):
             # Calculate volume for later scaling
         volume = 1.0
         if volume:
-            volume = np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2]))
+            volume = abs(np.dot(lattice_vectors[0], np.cross(lattice_vectors[1], lattice_vectors[2])))
         # First line of content should now be NGXF, NGYF, NGZF
         temp = content.split('\n', 1)
         ngf_string = temp[0]
-- 
2.43.0


From 46ccb53e1d766e6d0cf2777d78baabb16deb70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 56/74] fix: atom moments and three digit exponents do not
 shift the CHGCAR densities

---
 parsevasp/chgcar.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index f46c6c4..1ff0f26 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -89,25 +89,30 @@ class Chgcar(BaseParser):
         content = content.split(ngf_string)
         num_datasets = len(content)
         # First dataset is always there
-        self._data['total'] = np.fromstring(content[0].split('augmentation occupancies')[0], dtype=float,
-                                            sep=' ').reshape(ngf) / volume
+        self._data['total'] = self._read_density(content[0], ngf) / volume
         if num_datasets == 2:
             # Collinear spin
-            self._data['magnetization'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            self._data['magnetization'] = self._read_density(content[1], ngf) / volume
         elif num_datasets == 4:
             # Non-collinear spin
             self._data['magnetization'] = {}
-            self._data['magnetization']['x'] = np.fromstring(
-                content[1].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
-            self._data['magnetization']['y'] = np.fromstring(
-                content[2].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
-            self._data['magnetization']['z'] = np.fromstring(
-                content[3].split('augmentation occupancies')[0], dtype=float, sep=' '
-            ).reshape(ngf) / volume
+            self._data['magnetization']['x'] = self._read_density(content[1], ngf) / volume
+            self._data['magnetization']['y'] = self._read_density(content[2], ngf) / volume
+            self._data['magnetization']['z'] = self._read_density(content[3], ngf) / volume
+
+    @staticmethod
+    def _read_density(content, ngf):
+        """
+        Read the values on the grid from the content of one dataset.
+
+        Only the values on the grid are read, augmentation occupancies and the moments of the atoms
+        follow.
+
+        """
+        content = content.split('augmentation occupancies')[0]
+        # Exponents with three digits are printed without the E
+        content = re.sub(r'(\d)([+-]\d{3})(?!\d)', r'\1E\2', content)
+        return np.fromstring(content, dtype=float, sep=' ', count=int(np.prod(ngf))).reshape(ngf)
 
     @property
     def charge_density(self):
-- 
2.43.0


From 64c2e6064e72bda9503043bd31d2be1258165a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 57/74] fix: columns of the spin components in DOSCAR

---
 parsevasp/doscar.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 04472c5..aee0683 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -209,10 +209,11 @@ class Doscar(BaseParser):
         dos = np.zeros((dos_data.shape[0]), DTYPES_DOS[count])
         dos['energy'] = dos_data[:, 0]
         for i, name in enumerate(DTYPES_DOS[count].names[1:]):
+            start = 1 + i * num_spin
             if num_spin == 1:
-                dos[name] = np.squeeze(dos_data[:, i + 1:i + 1 + num_spin], axis=1)
+                dos[name] = np.squeeze(dos_data[:, start:start + num_spin], axis=1)
             else:
-                dos[name] = dos_data[:, i + 1:i + 1 + num_spin]
+                dos[name] = dos_data[:, start:start + num_spin]
 
         # Partial density of states
         pdos_items = []
@@ -234,10 +235,11 @@ class Doscar(BaseParser):
             pdos = np.zeros((pdos_data.shape[0], pdos_data.shape[1]), dtype_pdos)
             pdos['energy'] = pdos_data[:, :, 0]
             for i, name in enumerate(dtype_pdos.names[1:]):
+                start = 1 + i * num_spin
                 if num_spin == 1:  # Only squeeze if there is only one spin component
-                    pdos[name] = np.squeeze(pdos_data[:, :, i + 1:i + 1 + num_spin], axis=2)
+                    pdos[name] = np.squeeze(pdos_data[:, :, start:start + num_spin], axis=2)
                 else:
-                    pdos[name] = pdos_data[:, :, i + 1:i + 1 + num_spin]
+                    pdos[name] = pdos_data[:, :, start:start + num_spin]
 
         metadata = {}
         metadata['n_ions'] = num_ions
-- 
2.43.0


From dd3059ff12ee82225a3104bf1eacbee810166f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 58/74] fix: name of the dx2-y2 orbital of a non-collinear
 DOSCAR

---
 parsevasp/doscar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index aee0683..f2c6a13 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -52,7 +52,7 @@ DTYPES_PDOS_NONCOLLINEAR = {
     37:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-              ('x2-y2', float, (4,))]),
+              ('dx2-y2', float, (4,))]),
     65:
     np.dtype([('energy', float), ('s', float, (4,)), ('py', float, (4,)), ('px', float, (4,)), ('pz', float, (4,)),
               ('dxy', float, (4,)), ('dyz', float, (4,)), ('dz2', float, (4,)), ('dxz', float, (4,)),
-- 
2.43.0


From 07256889c33b8b40db612162526d0d3054581526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 59/74] fix: three digit exponents in DOSCAR

---
 parsevasp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parsevasp/utils.py b/parsevasp/utils.py
index 6457cf0..4209677 100644
--- a/parsevasp/utils.py
+++ b/parsevasp/utils.py
@@ -380,6 +380,9 @@ def line_to_type(fobject_or_string, d_type=str, no_split=False):
     else:
         line = fobject_or_string.readline()
     # Previously this was map instead of list comprehension
+    if d_type is float:
+        # Exponents with three digits are printed without the E
+        line = re.sub(r'(\d)([+-]\d{3})(?!\d)', r'\1E\2', line)
     if not no_split:
         result = [d_type(item) for item in line.split()]
     else:
-- 
2.43.0


From 3335b48c97560d3f23e96ccf19ae81f6e40ba73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 60/74] fix: DOSCAR with more than 9999 energy points

---
 parsevasp/doscar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index f2c6a13..41e2f11 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -190,7 +190,14 @@ class Doscar(BaseParser):
 
         # Energy min, energy max, number of points between, fermi level, weight
         line_2 = utils.line_to_type(doscar[5], float)
-        emax, emin, ndos, efermi, weight = line_2
+        if len(line_2) == 4:
+            # There is no blank between the energy and the number of points if the latter has five digits
+            columns = [0, 16, 32, 37, 53, 69]
+            emax, emin, ndos, efermi, weight = [
+                float(doscar[5][start:end]) for start, end in zip(columns[:-1], columns[1:])
+            ]
+        else:
+            emax, emin, ndos, efermi, weight = line_2
         ndos = int(ndos)
 
         # The rest of the file is density of states data, convert to float
-- 
2.43.0


From 45e98075d99d17b9ab22312d09c4f4a22eef5359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 61/74] fix: blank lines between and around the blocks of
 EIGENVAL

---
 parsevasp/eigenval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index 79cfc4a..b482b3a 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -92,13 +92,13 @@ class Eigenval(BaseParser):
         # Read the rest of the data
         # Here we convert back to a string since the remainder of this parser
         # segment was taken from an older parser that worked on the string.
-        data = ''.join(eigenval[6:])
+        data = '\n'.join([line.strip() for line in eigenval[6:]])
 
         # Set rest of metadata
         num_ions, num_atoms, p00, num_spins = line_0
 
         # Datablocks
-        data = re.split(utils.empty_line, data)
+        data = re.split(r'\n\n+', data.strip())
         data = [[line.split() for line in block.splitlines()] for block in data]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
-- 
2.43.0


From 49574325dc222d94e290d17f6e89d6121cd6d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 62/74] fix: memory table of an OUTCAR with CRLF lines or
 trailing blanks

---
 parsevasp/outcar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index cc0246d..d6d5871 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -398,7 +398,7 @@ class Outcar(BaseParser):
         """
         info = {}
         time_mem_pattern = re.compile(r'\((sec|kb)\)')
-        mem_pattern = re.compile(r':.*kBytes$')
+        mem_pattern = re.compile(r':.*kBytes\s*$')
         for _, line in enumerate(timing_lines):
             if time_mem_pattern.search(line):
                 tokens = line.strip().split(':')
-- 
2.43.0


From 7be5c2b494f010a980e8978f3426c84c43fb1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 63/74] fix: large moments in the magnetization tables of
 OUTCAR

---
 parsevasp/outcar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index d6d5871..875a8c0 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -192,7 +192,8 @@ class Outcar(BaseParser):
                     total_magnetization = None
                     # Loop the lines of the table, which might not be complete if the calculation was cut off
                     for table_line in outcar[index + 4:]:
-                        mag_line = table_line.split()
+                        # The columns are eight characters wide, so large moments are not separated by blanks
+                        mag_line = re.sub(r'(\.\d{3})(?=-?\d+\.)', r'\1 ', table_line).split()
                         if not mag_line:
                             if site_moment:
                                 # Only one site, no total is printed
-- 
2.43.0


From 8c362b8404d3433d6d3e2ed93ab60057cab09645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 64/74] fix: event driven reading of a vasprun.xml with a
 KPOINTS_OPT block

---
 parsevasp/vasprun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index fea0457..6832b1b 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -707,7 +707,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
                     extract_scstep = False
                 if (
                     event == 'start' and element.tag == 'eigenvalues' and not extract_eigenvelocities and
-                    element.attrib.get('comment') != 'interpolated' and not extract_eigenvalues_specific
+                    element.attrib.get('comment') != 'interpolated' and not extract_eigenvalues_specific and
+                    not element.getparent().tag.endswith('_kpoints_opt')
                 ):
                     extract_eigenvalues = True
                 if event == 'end' and element.tag == 'eigenvalues' and extract_eigenvalues:
-- 
2.43.0


From 0a7f9096e8092ae9df64c085e154721d4e1b7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 65/74] fix: projections of a non-collinear calculation are not
 those of two spins

---
 parsevasp/vasprun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 6832b1b..1e3a3c6 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2642,8 +2642,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         # Number of kpoints to disect the eigenvalue sets later
         num_kpoints = self._lattice['kpoints'].shape[0]
 
-        # Value of ispin
-        # ispin = self._parameters['ispin']
+        # For non-collinear calculations the sets after the first one contain the projections of
+        # the magnetization, which is not a spin channel
+        if self._parameters['ispin'] == 1:
+            spin2 = None
 
         # Number of bands
         num_bands = self._parameters['nbands']
-- 
2.43.0


From b0657d7df8bd7095c268b9906bca6e2555096841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 66/74] fix: report a missing file on the logger of the parser

---
 parsevasp/chgcar.py   | 2 +-
 parsevasp/doscar.py   | 2 +-
 parsevasp/eigenval.py | 2 +-
 parsevasp/incar.py    | 2 +-
 parsevasp/kpoints.py  | 2 +-
 parsevasp/outcar.py   | 2 +-
 parsevasp/poscar.py   | 2 +-
 parsevasp/potcar.py   | 4 +++-
 parsevasp/stream.py   | 2 +-
 9 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index 1ff0f26..a80b458 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -61,7 +61,7 @@ class Chgcar(BaseParser):
         This method is presently not optimized to use as little memory as possible.
 
         """
-        content = utils.read_from_file(self._file_path, self._file_handler, lines=False)
+        content = utils.read_from_file(self._file_path, self._file_handler, lines=False, logger=self._logger)
         # Extract header, which ends at the first blank line
         temp = re.split(r'\n[ \t\r]*\n', content, maxsplit=1)
         header = temp[0]
diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 41e2f11..7866a1c 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -155,7 +155,7 @@ class Doscar(BaseParser):
 
         """
 
-        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        doscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(doscar)
 
     def _from_list(self, doscar):
diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index b482b3a..cabc4f6 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -63,7 +63,7 @@ class Eigenval(BaseParser):
 
         """
 
-        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        eigenval = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(eigenval)
 
     def _from_list(self, eigenval):
diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index 2546a6f..b04ec96 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -102,7 +102,7 @@ class Incar(BaseParser):
 
         """
 
-        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        incar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         return incar
 
     def _from_string(self):
diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index edb8c9e..9d3a429 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -125,7 +125,7 @@ class Kpoints(BaseParser):
 
         """
 
-        kpoints = utils.read_from_file(self._file_path, self._file_handler)
+        kpoints = utils.read_from_file(self._file_path, self._file_handler, logger=self._logger)
         kpoints_dict = self._from_list(kpoints)
         return kpoints_dict
 
diff --git a/parsevasp/outcar.py b/parsevasp/outcar.py
index 875a8c0..fda074e 100644
--- a/parsevasp/outcar.py
+++ b/parsevasp/outcar.py
@@ -110,7 +110,7 @@ class Outcar(BaseParser):
         file and store them in the this instance's data dictionary.
         """
 
-        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        outcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(outcar)
 
     def _from_list(self, outcar):  # pylint: disable=R0915
diff --git a/parsevasp/poscar.py b/parsevasp/poscar.py
index 5643fb5..8d39e7a 100644
--- a/parsevasp/poscar.py
+++ b/parsevasp/poscar.py
@@ -116,7 +116,7 @@ class Poscar(BaseParser):
 
         """
 
-        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        poscar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         poscar_dict = self._from_list(poscar)
         return poscar_dict
 
diff --git a/parsevasp/potcar.py b/parsevasp/potcar.py
index 4bddbca..0c9b0bd 100644
--- a/parsevasp/potcar.py
+++ b/parsevasp/potcar.py
@@ -86,7 +86,9 @@ class Potcar(BaseParser):
 
         """
 
-        potcar = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', lines=False)
+        potcar = utils.read_from_file(
+            self._file_path, self._file_handler, encoding='utf8', lines=False, logger=self._logger
+        )
 
         return self._generate_metadata(potcar)
 
diff --git a/parsevasp/stream.py b/parsevasp/stream.py
index b4d3dd2..a0b3c4f 100644
--- a/parsevasp/stream.py
+++ b/parsevasp/stream.py
@@ -186,7 +186,7 @@ class Stream(BaseParser):  # pylint: disable=R0902
 
         """
 
-        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8')
+        stream = utils.read_from_file(self._file_path, self._file_handler, encoding='utf8', logger=self._logger)
         self._from_list(stream)
 
     def _from_list(self, stream):
-- 
2.43.0


From 5d8d4d05b782db161870b6300f1a2fcb8ce260eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 67/74] fix: report too many comments of an INCAR value as an
 error

---
 parsevasp/incar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/incar.py b/parsevasp/incar.py
index b04ec96..ef81b1d 100644
--- a/parsevasp/incar.py
+++ b/parsevasp/incar.py
@@ -208,7 +208,7 @@ class Incar(BaseParser):
             if isinstance(value, str):
                 comment = value.split('#')
                 if len(comment) > 2:
-                    self._logger.info(
+                    self._logger.error(
                         f'{self.ERROR_MESSAGES[self.ERROR_MULTIPLE_COMMENTS]} The tag {str(tag)} is affected.'
                     )
                     sys.exit(self.ERROR_MULTIPLE_COMMENTS)
-- 
2.43.0


From 630507a0404338791e2283dbfde420f9a686ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 68/74] fix: report an unknown element of vasprun.xml as an
 error

---
 parsevasp/vasprun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 1e3a3c6..39b0f25 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2940,7 +2940,7 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             try:
                 species[index] = constants.elements[entry[index].text.split()[0].lower()]
             except KeyError:
-                self._logger.warning(self.ERROR_MESSAGES[self.ERROR_UNKNOWN_ELEMENT])
+                self._logger.error(self.ERROR_MESSAGES[self.ERROR_UNKNOWN_ELEMENT])
                 sys.exit(self.ERROR_UNKNOWN_ELEMENT)
 
         return species
-- 
2.43.0


From c7cbcd3ee5eabf63cf1955d6dfbbb4af3f338495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 69/74] fix: refuse a CHGCAR with incomplete or unreadable
 densities

---
 parsevasp/chgcar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsevasp/chgcar.py b/parsevasp/chgcar.py
index a80b458..c9e2258 100644
--- a/parsevasp/chgcar.py
+++ b/parsevasp/chgcar.py
@@ -99,6 +99,8 @@ class Chgcar(BaseParser):
             self._data['magnetization']['x'] = self._read_density(content[1], ngf) / volume
             self._data['magnetization']['y'] = self._read_density(content[2], ngf) / volume
             self._data['magnetization']['z'] = self._read_density(content[3], ngf) / volume
+        elif num_datasets == 3:
+            raise ValueError('The last component of the magnetization is missing, the file is not complete.')
 
     @staticmethod
     def _read_density(content, ngf):
@@ -112,7 +114,9 @@ class Chgcar(BaseParser):
         content = content.split('augmentation occupancies')[0]
         # Exponents with three digits are printed without the E
         content = re.sub(r'(\d)([+-]\d{3})(?!\d)', r'\1E\2', content)
-        return np.fromstring(content, dtype=float, sep=' ', count=int(np.prod(ngf))).reshape(ngf)
+        num_points = int(np.prod(ngf))
+        # This fails if there are fewer values than grid points, or if one of them is not a number
+        return np.array(content.split(maxsplit=num_points)[:num_points], dtype=float).reshape(ngf)
 
     @property
     def charge_density(self):
-- 
2.43.0


From 0fc96fd94627ddf48a18c39ec20cdaecd0404b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 70/74] fix: refuse an EIGENVAL that is cut off

---
 parsevasp/eigenval.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsevasp/eigenval.py b/parsevasp/eigenval.py
index cabc4f6..3b07511 100644
--- a/parsevasp/eigenval.py
+++ b/parsevasp/eigenval.py
@@ -102,12 +102,16 @@ class Eigenval(BaseParser):
         data = [[line.split() for line in block.splitlines()] for block in data]
         kpoints = np.zeros((num_kp, 4))
         eigenvalues = np.zeros((num_spins, num_kp, num_bands))
+        if len(data) != num_kp:
+            raise ValueError('The EIGENVAL file does not contain all the k-points.')
         # Iterate over blocks, pr. k-point
         for k, field in enumerate(data):
             # Remove empty lines
             kpbs = [x for x in field if x]
             # First line in the data block is the kpoint coordinates and weight
             kpi = [float(x) for x in kpbs.pop(0)]
+            if len(kpi) != 4 or len(kpbs) != num_bands or any(len(point) <= num_spins for point in kpbs):
+                raise ValueError(f'The data of k-point {k + 1} in the EIGENVAL file is not complete.')
             kpoints[k] = kpi
             # The rest is the band energies
             for point in kpbs:
-- 
2.43.0


From 43e99bb91c62e63798ece30e37a98ec70313bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 71/74] fix: refuse a DOSCAR that is cut off

---
 parsevasp/doscar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parsevasp/doscar.py b/parsevasp/doscar.py
index 7866a1c..6d9a997 100644
--- a/parsevasp/doscar.py
+++ b/parsevasp/doscar.py
@@ -230,6 +230,8 @@ class Doscar(BaseParser):
             for _ in range(num_ions):
                 pdos_items += [data[start:start + ndos]]
                 start += (ndos + 1)
+                if len(pdos_items[-1]) != ndos:
+                    raise ValueError('The partial density of states in the DOSCAR file is not complete.')
 
             # Get the number of columns for the pdos section.
             count = len(pdos_items[-1][-1])
-- 
2.43.0


From 29aeda19d49d906144d897690a6574ac3d9a6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 72/74] fix: check the number of divisions, shifts and
 coordinates of KPOINTS

---
 parsevasp/kpoints.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/parsevasp/kpoints.py b/parsevasp/kpoints.py
index 9d3a429..51b721c 100644
--- a/parsevasp/kpoints.py
+++ b/parsevasp/kpoints.py
@@ -251,8 +251,8 @@ class Kpoints(BaseParser):
             for index in range((len(kpoints) - 4)):
                 true_index = index + 4
                 if kpoints[true_index].strip():
-                    entry = kpoints[true_index].split()[0:3]
-                    coordinate = np.asarray([float(element) for element in entry])
+                    entry = kpoints[true_index].split()
+                    coordinate = np.asarray([float(entry[direction]) for direction in range(3)])
                     point = Kpoint(coordinate, 1.0)
                     points.append(point)
 
@@ -541,9 +541,10 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'shifts'.")
                 sys.exit(self.ERROR_NO_KEY)
         if shifts is not None:
-            if not isinstance(shifts, list):
+            if not isinstance(shifts, list) or len(shifts) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'shifts' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} "
+                    "The key 'shifts' should be a list of three floats."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -599,9 +600,10 @@ class Kpoints(BaseParser):
                 self._logger.error(f"{self.ERROR_MESSAGES[self.ERROR_NO_KEY]} The key in question is 'divisions'.")
                 sys.exit(self.ERROR_NO_KEY)
         if divisions is not None:
-            if not isinstance(divisions, list):
+            if not isinstance(divisions, list) or len(divisions) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'divisions' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} "
+                    "The key 'divisions' should be a list of three integers."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
@@ -633,17 +635,18 @@ class Kpoints(BaseParser):
                 )
                 sys.exit(self.ERROR_NO_KEY)
         if generating_vectors is not None:
-            if not isinstance(generating_vectors, list):
+            if not isinstance(generating_vectors, list) or len(generating_vectors) != 3:
                 self._logger.error(
-                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} The key 'generating_vectors' should be a list."
+                    f"{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} "
+                    "The key 'generating_vectors' should be a list of three lists."
                 )
                 sys.exit(self.ERROR_KEY_INVALID_TYPE)
             else:
                 for vec in generating_vectors:
-                    if not isinstance(vec, list):
+                    if not isinstance(vec, list) or len(vec) != 3:
                         self._logger.error(
                             f'{self.ERROR_MESSAGES[self.ERROR_KEY_INVALID_TYPE]} '
-                            "The key 'generating_vectors' should be a list of lists."
+                            "The key 'generating_vectors' should be a list of lists with three floats."
                         )
                         sys.exit(self.ERROR_KEY_INVALID_TYPE)
                     for element in vec:
-- 
2.43.0


From 4fbc814d99806c7bff77e63a1e603db08f7ba3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:50 +0000
Subject: [PATCH 73/74] fix: refuse spin-polarised vasprun blocks of which the
 second spin channel is missing

---
 parsevasp/vasprun.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 39b0f25..92e76f7 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2468,8 +2468,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
             sys.exit(self.ERROR_NO_NBANDS)
 
-        # ispin
-        # ispin = self._parameters['ispin']
+        # Both spin channels have to be there for a spin polarized calculation
+        if self._parameters['ispin'] == 2 and spin2 is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
+            sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
 
         # number of bands
         num_bands = self._parameters['nbands']
@@ -2559,8 +2561,10 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
             self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
             sys.exit(self.ERROR_NO_NBANDS)
 
-        # Value of ispin
-        # ispin = self._parameters['ispin']
+        # Both spin channels have to be there for a spin polarized calculation
+        if self._parameters['ispin'] == 2 and spin2 is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
+            sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
 
         # Number of bands
         num_bands = self._parameters['nbands']
@@ -2647,6 +2651,11 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         if self._parameters['ispin'] == 1:
             spin2 = None
 
+        # Both spin channels have to be there for a spin polarized calculation
+        if self._parameters['ispin'] == 2 and spin2 is None:
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_MISMATCH_KPOINTS_NBANDS])
+            sys.exit(self.ERROR_MISMATCH_KPOINTS_NBANDS)
+
         # Number of bands
         num_bands = self._parameters['nbands']
 
-- 
2.43.0


From a77ff1d493c05b9a0e92fb4dacd515a6fe4fd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:44 +0000
Subject: [PATCH 74/74] fix: name the missing species, not NBANDS, when vasprun
 projections are refused for it

---
 parsevasp/vasprun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsevasp/vasprun.py b/parsevasp/vasprun.py
index 92e76f7..f3df94d 100644
--- a/parsevasp/vasprun.py
+++ b/parsevasp/vasprun.py
@@ -2638,8 +2638,8 @@ class Xml(BaseParser):  #  pylint: disable=R0902, R0904
         num_atoms = 0
         # Also need the number of atoms if the projected values are supplied
         if self._lattice['species'] is None:
-            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_NBANDS])
-            sys.exit(self.ERROR_NO_NBANDS)
+            self._logger.error(self.ERROR_MESSAGES[self.ERROR_NO_SPECIES])
+            sys.exit(self.ERROR_NO_SPECIES)
         else:
             num_atoms = self._lattice['species'].shape[0]
 
-- 
2.43.0

