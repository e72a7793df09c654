From d75b9fb235bf4449d74fc3684f5446aa84856e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 01/16] fix: read the capacity of radiant cooling where the
 initializer writes it

---
 heat_load_calc/core/pre_calc_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..ffb4a67 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
-- 
2.43.0


From 5ff478526ddf6241b7e3aa4cd0cc09dbea51b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 02/16] fix: give every boundary its own form factor whatever
 the order of the boundaries

---
 heat_load_calc/core/shape_factor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..728b7f6 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,10 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    f_js = np.zeros(p_js_is.shape[0], dtype=float)
+    for i in range(n_spaces):
+        is_connected = p_js_is[:, i] == 1
+        f_js[is_connected] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From aa00a1e3fa6a37bb05b807070566751373cdfc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 03/16] fix: do not append the outermost layer to the layers of
 the wall itself

---
 heat_load_calc/initializer/response_factor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..1ab556f 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,11 +400,11 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
+        c = list(self._cs)
         c.append(0.0)
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
+        r = list(self._rs)
         r.append(self._r_o)
         r_layer_i_k_l = np.array(r)
 
@@ -433,11 +433,11 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
+        c = list(self._cs)
         c.append(3300.0 * 3.0)
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
+        r = list(self._rs)
         r.append(3.0 / 1.0)
         r_layer_i_k_l = np.array(r)
 
-- 
2.43.0


From 0d19357ef1419368f3a6495c67f87bf595b4bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 04/16] fix: do not round the weight of the inside temperature
 behind a boundary

---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From 283ae8d74fa5f7c6a831e2ceae4bf9c1e81f5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 05/16] fix: a room without sun-absorbing surface no longer
 turns the absorbed sunshine of all rooms into NaN

---
 heat_load_calc/core/pre_calc_parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index ffb4a67..ef93bf4 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -481,8 +481,10 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     a_srf_abs_is = np.dot(p_is_js, a_srf_js * is_solar_abs_js)
 
     # ステップnの境界jにおける透過日射吸収熱量, W/m2, [j, n]
-    q_sol_js_ns = np.dot(p_js_is, q_trs_sol_is_ns / a_srf_abs_is)\
-        * is_solar_abs_js * (1.0 - r_sol_fnt)
+    # 日射を吸収する境界が無い室は 0 とする（0除算の非数が他の室の境界に及ぶことを防ぐ）
+    q_sol_abs_is_ns = np.divide(
+        q_trs_sol_is_ns, a_srf_abs_is, out=np.zeros_like(q_trs_sol_is_ns, dtype=float), where=a_srf_abs_is > 0.0)
+    q_sol_js_ns = np.dot(p_js_is, q_sol_abs_is_ns) * is_solar_abs_js * (1.0 - r_sol_fnt)
 
     # ステップnの境界jにおける外気側等価温度の外乱成分, ℃, [j, n]
     theta_dstrb_js_ns = theta_o_sol_js_ns * k_eo_js
-- 
2.43.0


From 9aa5440bba6dab0919ffd548a31ffd69001170d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 06/16] fix: keep the cosine of incidence within the domain of
 arccos

---
 heat_load_calc/initializer/inclined_surface_solar_radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/inclined_surface_solar_radiation.py b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
index 8593111..b419910 100644
--- a/heat_load_calc/initializer/inclined_surface_solar_radiation.py
+++ b/heat_load_calc/initializer/inclined_surface_solar_radiation.py
@@ -109,7 +109,8 @@ def get_theta_aoi_j_n(
     )
 
     # cos がマイナスの場合は入射角が90°～270°、つまり傾斜面の裏面に太陽が位置していることになるため、ゼロにする。
-    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, None)
+    # 丸め誤差によりわずかに1を超える場合があるため、上限を1とする。（arccos が定義されなくなるため）
+    cos_theta_aoi_j_n = np.clip(cos_theta_aoi_j_n, 0.0, 1.0)
 
     # cos から radian に変換する。
     theta_aoi_j_n = np.arccos(cos_theta_aoi_j_n)
-- 
2.43.0


From 95a33cf4861bfce62f244524d56c7ee68bd77f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 07/16] fix: stamp the recorded steps with the calculation
 interval instead of always 15 minutes

---
 heat_load_calc/core/core.py | 5 +++--
 heat_load_calc/core/log.py  | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..0a51767 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -91,7 +91,7 @@ def calc(
     print('ログ作成')
 
     # ds: data simple, 1時間間隔で主要なパラメータのみを抽出した pd.DataFrame
-    # dd: data detail, 15分間隔のすべてのパラメータ pd.DataFrame
+    # dd: data detail, 計算間隔（デフォルトは15分間隔）のすべてのパラメータ pd.DataFrame
     ds, dd = log.record(
         pps=pp,
         logger=logger,
@@ -99,7 +99,8 @@ def calc(
         show_simple_result=show_simple_result,
         show_detail_result=show_detail_result,
         n_step_main=n_step_main,
-        n_d_main=n_d_main
+        n_d_main=n_d_main,
+        n_step_hourly=n_step_hourly
     )
 
     return ds, dd
diff --git a/heat_load_calc/core/log.py b/heat_load_calc/core/log.py
index acc4839..9e2bb27 100644
--- a/heat_load_calc/core/log.py
+++ b/heat_load_calc/core/log.py
@@ -152,11 +152,11 @@ class Logger:
         self.q_l_frt = ss.g_lh_frt_is * (self.x_r - self.x_frt)
 
 
-def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int):
+def record(pps: PreCalcParameters, logger: Logger, output_data_dir: str, show_simple_result: bool, show_detail_result: bool, n_step_main: int, n_d_main: int, n_step_hourly: int = 4):
 
-    date_index_15min = pd.date_range(start='1/1/1989', periods=n_step_main, freq='15min')
+    date_index = pd.date_range(start='1/1/1989', periods=n_step_main, freq=pd.Timedelta(hours=1) / n_step_hourly)
 
-    dd = pd.DataFrame(index=date_index_15min)
+    dd = pd.DataFrame(index=date_index)
 
     dd['out_temp'] = logger.theta_o_ns[0:n_step_main]
     dd['out_abs_humid'] = logger.x_o_ns[0:n_step_main]
-- 
2.43.0


From d4e168a330789068c1a01a04d1a32da7be9f2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 08/16] fix: read back every kind of sunshade that can be
 written

---
 heat_load_calc/convert/factor_f.py | 48 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..10dcbdf 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -293,11 +291,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
@@ -526,18 +524,16 @@ class SunshadeTransientExistDetail(SunshadeTransient):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From 554408ca6052adf91a9a6f93d7f85302e37d05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 09/16] fix: derive U and eta values for attached houses too

---
 heat_load_calc/convert/ees_house.py           | 12 ++++---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 34 ++++++++++---------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..7fbc5a7 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1696,10 +1696,14 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         return self._window_spec.get_eta_d(season=season)
 
     def get_m(self, region: int, season: str) -> float:
-        return self.get_eta_d(season=season) \
-               * self.area \
-               * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
-               * self.get_nu(region=region, season=season)
+
+        if self.next_space == NextSpace.OUTDOOR:
+            return self.get_eta_d(season=season) \
+                   * self.area \
+                   * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
+                   * self.get_nu(region=region, season=season)
+        else:
+            return 0.0
 
     def get_as_dict(self):
 
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..1172c84 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -16,9 +16,9 @@ PartType = namedtuple('PartType', [
     'ceiling',
     'wall',
     'floor',
-    'boundary_ceiling',
+    'upward_boundary_floor',
     'boundary_wall',
-    'boundary_floor',
+    'downward_boundary_floor',
     'window',
     'door',
     'earthfloor_perimeter',
@@ -39,9 +39,9 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'ceiling': u_psi.ceiling,
         'wall': u_psi.wall,
         'floor': u_psi.floor,
-        'boundary_ceiling': u_psi.boundary_ceiling,
+        'upward_boundary_floor': u_psi.upward_boundary_floor,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'downward_boundary_floor': u_psi.downward_boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
@@ -62,9 +62,9 @@ def get_u_psi_std(region: int, part_type: str) -> float:
         'ceiling': {1: 0.17, 2: 0.17, 3: 0.24, 4: 0.24, 5: 0.24, 6: 0.24, 7: 0.24, 8: 0.24},
         'wall': {1: 0.35, 2: 0.35, 3: 0.53, 4: 0.53, 5: 0.53, 6: 0.53, 7: 0.53, 8: 4.10},
         'floor': {1: 0.34, 2: 0.34, 3: 0.34, 4: 0.48, 5: 0.48, 6: 0.48, 7: 0.48, 8: 3.52},
-        'boundary_ceiling': {1: 0.17, 2: 0.17, 3: 0.24, 4: 0.24, 5: 0.24, 6: 0.24, 7: 0.24, 8: 0.24},
+        'upward_boundary_floor': {1: 0.17, 2: 0.17, 3: 0.24, 4: 0.24, 5: 0.24, 6: 0.24, 7: 0.24, 8: 0.24},
         'boundary_wall': {1: 0.35, 2: 0.35, 3: 0.53, 4: 0.53, 5: 0.53, 6: 0.53, 7: 0.53, 8: 4.10},
-        'boundary_floor': {1: 0.34, 2: 0.34, 3: 0.34, 4: 0.48, 5: 0.48, 6: 0.48, 7: 0.48, 8: 3.52},
+        'downward_boundary_floor': {1: 0.34, 2: 0.34, 3: 0.34, 4: 0.48, 5: 0.48, 6: 0.48, 7: 0.48, 8: 3.52},
         'window': {1: 2.33, 2: 2.33, 3: 3.49, 4: 4.65, 5: 4.65, 6: 4.65, 7: 4.65, 8: 6.51},
         'door': {1: 2.33, 2: 2.33, 3: 3.49, 4: 4.65, 5: 4.65, 6: 4.65, 7: 4.65, 8: 6.51},
         'earthfloor_perimeter': {1: 0.53, 2: 0.53, 3: 0.53, 4: 0.76, 5: 0.76, 6: 0.76, 7: 0.76, 8: 1.80}
@@ -84,9 +84,9 @@ def get_u_psi_max(part_type):    # 部位別の熱貫流率の上限値, W/m2 K
         'ceiling': 1/(0.09+0.0095/0.22+0.09),
         'wall': 1/(0.11+0.0095/0.22+0.04),
         'floor': 1/(0.15+0.012/0.16+0.04),
-        'boundary_ceiling': 1/(0.09+0.0095/0.22+0.09),
+        'upward_boundary_floor': 1/(0.09+0.0095/0.22+0.09),
         'boundary_wall': 1/(0.11+0.0095/0.22+0.11),
-        'boundary_floor': 1/(0.15+0.012/0.16+0.15),
+        'downward_boundary_floor': 1/(0.15+0.012/0.16+0.15),
         'window': 6.51,
         'door': 6.51,
         'earthfloor_perimeter': 100.0
@@ -228,11 +228,13 @@ def get_eta_d_each(
     """
 
     sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating')
+        for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
     sum_a_f_nu_c = sum(
-        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling') for s in ws
+        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling')
+        for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
     eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
@@ -321,9 +323,9 @@ def calc_parts_spec(
         ceiling=u_psi_value['ceiling'],
         wall=u_psi_value['wall'],
         floor=u_psi_value['floor'],
-        boundary_ceiling=u_psi_value['boundary_ceiling'],
+        upward_boundary_floor=u_psi_value['upward_boundary_floor'],
         boundary_wall=u_psi_value['boundary_wall'],
-        boundary_floor=u_psi_value['boundary_floor'],
+        downward_boundary_floor=u_psi_value['downward_boundary_floor'],
         window=u_psi_value['window'],
         door=u_psi_value['door'],
         earthfloor_perimeter=u_psi_value['earthfloor_perimeter']
@@ -413,8 +415,8 @@ def _get_q_std(
         for s in gps if s.general_part_type == GeneralPartType.FLOOR
     ])
 
-    q_uah_std['boundary_ceiling'] = sum([
-        s.area * get_u_psi_std(region=region, part_type='boundary_ceiling') * s.get_h(region=region)
+    q_uah_std['upward_boundary_floor'] = sum([
+        s.area * get_u_psi_std(region=region, part_type='upward_boundary_floor') * s.get_h(region=region)
         for s in gps if s.general_part_type == GeneralPartType.UPWARD_BOUNDARY_FLOOR
     ])
 
@@ -423,8 +425,8 @@ def _get_q_std(
         for s in gps if s.general_part_type == GeneralPartType.BOUNDARY_WALL
     ])
 
-    q_uah_std['boundary_floor'] = sum([
-        s.area * get_u_psi_std(region=region, part_type='boundary_floor') * s.get_h(region=region)
+    q_uah_std['downward_boundary_floor'] = sum([
+        s.area * get_u_psi_std(region=region, part_type='downward_boundary_floor') * s.get_h(region=region)
         for s in gps if s.general_part_type == GeneralPartType.DOWNWARD_BOUNDARY_FLOOR
     ])
 
-- 
2.43.0


From 6b16fd042d35cd7dda0b87ac776d0651f76cbfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 10/16] fix: derive U and eta values in region 8, which has no
 heating season

---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 1172c84..feb5153 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -189,25 +189,30 @@ def get_m_opq(
         gps: GeneralPartNoSpec クラスのリスト
         ds: DoorNoSpec クラスのリスト
     Returns:
-        不透明部位のm値の合計, W/K （暖房期・冷房期）
+        不透明部位のm値の合計, W/K （暖房期・冷房期）（8地域の暖房期は None）
     """
 
-    m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+    m_opq_c_general_part = sum([
+        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
-    m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+    m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
+
+    m_opq_c = m_opq_c_general_part + m_opq_c_door
+
+    # 8地域には暖房期が無い。
+    if region == 8:
+        return None, m_opq_c
+
+    m_opq_h_general_part = sum([
+        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_h_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
 
-    m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
-
     m_opq_h = m_opq_h_general_part + m_opq_h_door
-    m_opq_c = m_opq_c_general_part + m_opq_c_door
 
     return m_opq_h, m_opq_c
 
@@ -224,21 +229,26 @@ def get_eta_d_each(
         m_c_opq: 不透明部位のm_c値, W/(W/m2)
         ws: WindowNoSpec クラスのリスト
     Returns:
-        η_d,h・η_d,c 値, (W/m2)/(W/m2)
+        η_d,h・η_d,c 値, (W/m2)/(W/m2)（8地域の η_d,h は None）
     """
 
-    sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating')
+    sum_a_f_nu_c = sum(
+        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling')
         for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
-    sum_a_f_nu_c = sum(
-        s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling')
+    eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
+
+    # 8地域には暖房期が無い。
+    if region == 8:
+        return None, float(eta_d_c)
+
+    sum_a_f_nu_h = sum(
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating')
         for s in ws if s.next_space == NextSpace.OUTDOOR
     )
 
     eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
-    eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
 
     return float(eta_d_h), float(eta_d_c)
 
@@ -294,7 +304,8 @@ def calc_parts_spec(
     q = _get_q(a_evp_total=a_evp_total, u_a=u_a_target)
 
     # m値, W/(W/m2)
-    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
+    # 8地域には暖房期が無い。
+    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target) if region != 8 else None
     m_c = _get_m_c(a_evp_total=a_evp_total, eta_a_c=eta_a_c_target)
 
     # 各部位の基準U値・ψ値に対するq値, W/K
-- 
2.43.0


From abbb2191e0bb25df2e79196343565db871d3fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 11/16] fix: size partition walls when the occupied rooms'
 floor areas add up to the total only after rounding

---
 heat_load_calc/convert/convert_lv3_to_lv4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/convert_lv3_to_lv4.py b/heat_load_calc/convert/convert_lv3_to_lv4.py
index a797509..c6c2af6 100644
--- a/heat_load_calc/convert/convert_lv3_to_lv4.py
+++ b/heat_load_calc/convert/convert_lv3_to_lv4.py
@@ -289,7 +289,7 @@ def get_inner_wall_total_area(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_e
 
     a_iw_mr = max(0.0, 4 * r_iw_mr * h_iw * a_mr ** 0.5 - a_evlp_hzt_mr)
     a_iw_or = max(0.0, 4 * r_iw_or * h_iw * a_or ** 0.5 - a_evlp_hzt_or)
-    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * (a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
+    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * max(0.0, a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
 
     return a_iw_mr, a_iw_or, a_iw_nr
 
-- 
2.43.0


From c50bb235c7d17c7e85632a9d87a9d104df56f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:09 +0000
Subject: [PATCH 12/16] fix: no partitions towards a non-occupied space that is
 only a rounding residue of the floor areas

---
 heat_load_calc/convert/convert_lv3_to_lv4.py | 23 ++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/convert/convert_lv3_to_lv4.py b/heat_load_calc/convert/convert_lv3_to_lv4.py
index c6c2af6..b35b31f 100644
--- a/heat_load_calc/convert/convert_lv3_to_lv4.py
+++ b/heat_load_calc/convert/convert_lv3_to_lv4.py
@@ -16,6 +16,21 @@ from heat_load_calc.convert.ees_house import HeatResistanceInputMethod
 from heat_load_calc.external.factor_nu import Direction
 
 
+def get_non_occupant_room_area(a_a: float, a_mr: float, a_or: float) -> float:
+    """
+    Args:
+        a_a: 床面積の合計, m2
+        a_mr: 主たる居室の床面積, m2
+        a_or: その他の居室の床面積, m2
+    Returns:
+        非居室の床面積, m2（丸め誤差の範囲であれば非居室は無いものとする。）
+    """
+
+    a_nr = a_a - a_mr - a_or
+
+    return a_nr if abs(a_nr) > 1.0e-9 * a_a else 0.0
+
+
 def get_inner_floor_layers() -> List[Layer]:
     """
     Returns:
@@ -114,7 +129,7 @@ def get_inner_floor_total_area(
 
     a_if_mr = max(0.0, a_mr - a_evlp_down_mr - a_ef_mr)
     a_if_or = max(0.0, a_or - a_evlp_down_or - a_ef_or)
-    a_if_nr = max(0.0, a_a - a_mr - a_or - a_evlp_down_nr - a_ef_nr)
+    a_if_nr = max(0.0, get_non_occupant_room_area(a_a=a_a, a_mr=a_mr, a_or=a_or) - a_evlp_down_nr - a_ef_nr)
 
     return a_if_mr, a_if_or, a_if_nr
 
@@ -170,7 +185,7 @@ def get_inner_floor_between_rooms(
             (6) 床上側が非居室に接し床下側がその他の居室に接する間仕切り床の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_non_occupant_room_area(a_a=a_a, a_mr=a_mr, a_or=a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
@@ -289,7 +304,7 @@ def get_inner_wall_total_area(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_e
 
     a_iw_mr = max(0.0, 4 * r_iw_mr * h_iw * a_mr ** 0.5 - a_evlp_hzt_mr)
     a_iw_or = max(0.0, 4 * r_iw_or * h_iw * a_or ** 0.5 - a_evlp_hzt_or)
-    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * max(0.0, a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
+    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * get_non_occupant_room_area(a_a=a_a, a_mr=a_mr, a_or=a_or) ** 0.5 - a_evlp_hzt_nr)
 
     return a_iw_mr, a_iw_or, a_iw_nr
 
@@ -312,7 +327,7 @@ def get_inner_wall_total_area_between_rooms(
             (3) その他の居室と非居室に接する間仕切り壁の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_non_occupant_room_area(a_a=a_a, a_mr=a_mr, a_or=a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
-- 
2.43.0


From ae920a579228baaec7b03955c11bed6be854dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 13/16] fix: build the model house of large base-insulated
 detached houses, whose insulated floor is only a rounding residue

---
 heat_load_calc/convert/model_house.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/convert/model_house.py b/heat_load_calc/convert/model_house.py
index 8ddd6ba..3e15658 100644
--- a/heat_load_calc/convert/model_house.py
+++ b/heat_load_calc/convert/model_house.py
@@ -1165,7 +1165,10 @@ def _get_a_evp_f_other(
         断熱した床の面積の合計, m2
     """
 
-    return a_f[0] - a_evp_ef_total - a_evp_f_etrc - a_evp_f_bath
+    a_evp_f_other = a_f[0] - a_evp_ef_total - a_evp_f_etrc - a_evp_f_bath
+
+    # 基礎断熱の場合に、丸め誤差によりわずかな面積の床が残ることを避ける。
+    return a_evp_f_other if abs(a_evp_f_other) > 1.0e-9 * a_f[0] else 0.0
 
 
 def _get_a_evp_ef_total(a_evp_ef_bath: float, a_evp_ef_etrc: float, a_evp_ef_other: float) -> float:
-- 
2.43.0


From 1471a8ea58c099aebab4459331b64fccb467dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:43 +0000
Subject: [PATCH 14/16] fix: rooms without floor surface do not get NaN shares
 of radiant heating they do not have

---
 .../initializer/a12_indoor_radiative_heat_transfer.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
index bde5c82..7cd163a 100644
--- a/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
+++ b/heat_load_calc/initializer/a12_indoor_radiative_heat_transfer.py
@@ -19,7 +19,8 @@ def get_flr_i_js(area_i_js: np.ndarray, is_radiative_heating: bool, is_floor_i_j
 
     a_floor_i = np.sum(area_i_js[is_floor_i_js])
 
-    flr_i_js = area_i_js / a_floor_i * is_radiative_heating * is_floor_i_js
+    # 放射暖房のない室は、床の有無によらず 0 とする。
+    flr_i_js = np.where(is_radiative_heating, area_i_js / a_floor_i * is_floor_i_js, 0.0)
 
     return flr_i_js
 
-- 
2.43.0


From 6796af9c079479fdc6aab4b34adbaa101a281fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 15/16] fix: weights of the surfaces seen by the occupant add
 up to one in rooms without (or with nothing but) floor surfaces

---
 heat_load_calc/initializer/occupants_form_factor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heat_load_calc/initializer/occupants_form_factor.py b/heat_load_calc/initializer/occupants_form_factor.py
index 2410143..e2914ef 100644
--- a/heat_load_calc/initializer/occupants_form_factor.py
+++ b/heat_load_calc/initializer/occupants_form_factor.py
@@ -19,6 +19,12 @@ def get_f_mrt_hum_is(a_bdry_i_js: np.ndarray, is_floor_bdry_i_js: np.ndarray) ->
     # 人体に対する部位の形態係数の計算
     f_mrt_hum_i_js = np.zeros(len(a_bdry_i_js), dtype=np.float)
 
+    # 床がない室・床のみの室では、ある方の部位の合計が 1 となるようにする。
+    if not np.any(is_floor_bdry_i_js):
+        f_mrt_hum_floor = 0.0
+    elif np.all(is_floor_bdry_i_js):
+        f_mrt_hum_floor = 1.0
+
     # 下向き部位（床）
     f1 = is_floor_bdry_i_js
     f_mrt_hum_i_js[f1] = a_bdry_i_js[f1] / np.sum(a_bdry_i_js[f1]) * f_mrt_hum_floor
-- 
2.43.0


From 4a0d55988acedd50279d77cb9beded0de329a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 16/16] fix: rooms without convective cooling can be
 calculated; their air is not dehumidified

---
 heat_load_calc/core/heat_exchanger.py      |  3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index 3b66479..d936bff 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -11,7 +11,8 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
     # 以下の取り扱いを簡単にするため（冷房負荷を正とするため）、正負を反転させる
     qs_is_n = -lcs_is_n
 
-    dh = qs_is_n > 1.0e-3
+    # 対流冷房が設置されていない（風量が0の）室では除湿しない。
+    dh = (qs_is_n > 1.0e-3) & (rac_spec['v_max'] > 0.0)
 
     v_ac_is_n = np.zeros_like(lcs_is_n, dtype=float)
 
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index ef93bf4..f3746b5 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -287,10 +287,12 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     is_radiative_cooling_is = np.array(is_radiative_cooling_is_list)
     lr_cs_max_cap_is = np.array(radiative_cooling_max_capacity_is_list)
 
-    qmin_c_is = np.array([s['equipment']['cooling']['convective']['q_min'] for s in ss]).reshape(-1, 1)
-    qmax_c_is = np.array([s['equipment']['cooling']['convective']['q_max'] for s in ss]).reshape(-1, 1)
-    Vmin_is = np.array([s['equipment']['cooling']['convective']['v_min'] for s in ss]).reshape(-1, 1)
-    Vmax_is = np.array([s['equipment']['cooling']['convective']['v_max'] for s in ss]).reshape(-1, 1)
+    # 対流冷房が設置されていない室の仕様は記述されないため、能力・風量を0とする（除湿しない）。
+    rac_is = [s['equipment']['cooling']['convective'] for s in ss]
+    qmin_c_is = np.array([rac.get('q_min', 0.0) for rac in rac_is]).reshape(-1, 1)
+    qmax_c_is = np.array([rac.get('q_max', 0.0) for rac in rac_is]).reshape(-1, 1)
+    Vmin_is = np.array([rac.get('v_min', 0.0) for rac in rac_is]).reshape(-1, 1)
+    Vmax_is = np.array([rac.get('v_max', 0.0) for rac in rac_is]).reshape(-1, 1)
 
     # endregion
 
-- 
2.43.0

