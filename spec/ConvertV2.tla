------------------------------- MODULE ConvertV2 -------------------------------
(* Version 1 frames turned into the tables of version 2. A source row (the frame and the item of it    *)
(* being turned, e.g. one lidar label) is a function from the paths of the fields that are set to      *)
(* their values. A value is a sequence of texts: one text, or "[" and the elements of a repeated field *)
(* ("-" where an element of a repeated message lacks the field). A message that is present is set too. *)
(* A kind of component has a table of columns: the path the value comes from and how it is taken.      *)
EXTENDS VCommon

R(c, p, m) == [c |-> c, p |-> p, m |-> m]
Null == <<"null">>
Key(rows) == <<R("key.segment_context_name", "frame.context.name", "")>> \o rows
FrameKey(rows) == Key(<<R("key.frame_timestamp_micros", "frame.timestamp_micros", "0")>> \o rows)
LabelKey(rows) == FrameKey(<<R("key.laser_object_id", "label.id", "")>> \o rows)
CamKey(p, rows) == FrameKey(<<R("key.camera_name", p, "0")>> \o rows)
CamLabelKey(rows) == CamKey("camera.name", <<R("key.camera_object_id", "label.id", "")>> \o rows)
LaserKey(rows) == FrameKey(<<R("key.laser_name", "laser.name", "0")>> \o rows)
Box3(pre, p) == <<R(pre \o ".center.x", p \o ".center_x", "must"), R(pre \o ".center.y", p \o ".center_y", "must"),
                  R(pre \o ".center.z", p \o ".center_z", "must"), R(pre \o ".size.x", p \o ".length", "must"),
                  R(pre \o ".size.y", p \o ".width", "must"), R(pre \o ".size.z", p \o ".height", "must"), R(pre \o ".heading", p \o ".heading", "must")>>
Box2(pre, p) == <<R(pre \o ".center.x", p \o ".center_x", "must"), R(pre \o ".center.y", p \o ".center_y", "must"),
                  R(pre \o ".size.x", p \o ".length", "must"), R(pre \o ".size.y", p \o ".width", "must")>>
Levels(C) == <<R(C \o ".difficulty_level.detection", "label.detection_difficulty_level", "levels"),
               R(C \o ".difficulty_level.tracking", "label.tracking_difficulty_level", "levels")>>
Motion(C, v, s) == <<R(C \o "." \o v \o ".x", "label.metadata." \o s \o "_x", "meta-must"),
                     R(C \o "." \o v \o ".y", "label.metadata." \o s \o "_y", "meta-must"),
                     R(C \o "." \o v \o ".z", "label.metadata." \o s \o "_z", "meta-0")>>
Image(C, n, p) == <<R(C \o ".range_image_return" \o n \o ".values", p \o ".data", "list?"),
                    R(C \o ".range_image_return" \o n \o ".shape", p \o ".dims", "list?")>>

Columns(k) ==
  CASE k = "lidar_box" ->
         LabelKey(Box3("[LiDARBoxComponent].box", "label.box") \o
                  <<R("[LiDARBoxComponent].type", "label.type", "0"), R("[LiDARBoxComponent].num_lidar_points_in_box", "label.num_lidar_points_in_box", "0"),
                    R("[LiDARBoxComponent].num_top_lidar_points_in_box", "label.num_top_lidar_points_in_box", "0")>> \o
                  Motion("[LiDARBoxComponent]", "speed", "speed") \o Motion("[LiDARBoxComponent]", "acceleration", "accel") \o Levels("[LiDARBoxComponent]"))
    [] k = "synced_box" ->
         LabelKey(<<R("[LiDARCameraSyncedBoxComponent].most_visible_camera_name", "label.most_visible_camera_name", "camera")>> \o
                  Box3("[LiDARCameraSyncedBoxComponent].camera_synced_box", "label.camera_synced_box"))
    [] k = "projected_box" ->
         CamKey("label.id", <<R("key.laser_object_id", "label.id", "object-of")>> \o Box2("[ProjectedLiDARBoxComponent].box", "label.box") \o
                <<R("[ProjectedLiDARBoxComponent].type", "label.type", "0")>>)
    [] k = "camera_box" ->
         CamLabelKey(Box2("[CameraBoxComponent].box", "label.box") \o <<R("[CameraBoxComponent].type", "label.type", "0")>> \o Levels("[CameraBoxComponent]"))
    [] k = "association" -> CamLabelKey(<<R("key.laser_object_id", "label.association.laser_object_id", "")>>)
    [] k = "camera_image" ->
         LET C == "[CameraImageComponent]." IN
         CamKey("image.name", <<R(C \o "image", "image.image", ""), R(C \o "pose.transform", "image.pose.transform", "list"),
             R(C \o "velocity.linear_velocity.x", "image.velocity.v_x", "0"), R(C \o "velocity.linear_velocity.y", "image.velocity.v_y", "0"),
             R(C \o "velocity.linear_velocity.z", "image.velocity.v_z", "0"), R(C \o "velocity.angular_velocity.x", "image.velocity.w_x", "0"),
             R(C \o "velocity.angular_velocity.y", "image.velocity.w_y", "0"), R(C \o "velocity.angular_velocity.z", "image.velocity.w_z", "0"),
             R(C \o "pose_timestamp", "image.pose_timestamp", "0"), R(C \o "rolling_shutter_params.shutter", "image.shutter", "0"),
             R(C \o "rolling_shutter_params.camera_trigger_time", "image.camera_trigger_time", "0"),
             R(C \o "rolling_shutter_params.camera_readout_done_time", "image.camera_readout_done_time", "0")>>)
    [] k = "camera_calibration" ->
         LET C == "[CameraCalibrationComponent]."
             p == "calibration.intrinsic" IN
         Key(<<R("key.camera_name", "calibration.name", "0"), R(C \o "intrinsic.f_u", p, "at1"), R(C \o "intrinsic.f_v", p, "at2"),
               R(C \o "intrinsic.c_u", p, "at3"), R(C \o "intrinsic.c_v", p, "at4"), R(C \o "intrinsic.k1", p, "at5"), R(C \o "intrinsic.k2", p, "at6"),
               R(C \o "intrinsic.p1", p, "at7"), R(C \o "intrinsic.p2", p, "at8"), R(C \o "intrinsic.k3", p, "at9"),
               R(C \o "extrinsic.transform", "calibration.extrinsic.transform", "list"), R(C \o "width", "calibration.width", "0"),
               R(C \o "height", "calibration.height", "0"), R(C \o "rolling_shutter_direction", "calibration.rolling_shutter_direction", "0")>>)
    [] k = "lidar_calibration" ->
         LET C == "[LiDARCalibrationComponent]." IN
         Key(<<R("key.laser_name", "calibration.name", "0"), R(C \o "extrinsic.transform", "calibration.extrinsic.transform", "list"),
               R(C \o "beam_inclination.min", "calibration.beam_inclination_min", "0"), R(C \o "beam_inclination.max", "calibration.beam_inclination_max", "0"),
               R(C \o "beam_inclination.values", "calibration.beam_inclinations", "list?")>>)
    [] k = "stats" ->
         LET C == "[StatsComponent]."
             p == "frame.context.stats." IN
         FrameKey(<<R(C \o "time_of_day", p \o "time_of_day", ""), R(C \o "location", p \o "location", ""), R(C \o "weather", p \o "weather", ""),
                    R(C \o "lidar_object_counts.types", p \o "laser_object_counts.type", "each0?"),
                    R(C \o "lidar_object_counts.counts", p \o "laser_object_counts.count", "each0?"),
                    R(C \o "camera_object_counts.types", p \o "camera_object_counts.type", "each0?"),
                    R(C \o "camera_object_counts.counts", p \o "camera_object_counts.count", "each0?")>>)
    [] k = "vehicle_pose" -> FrameKey(<<R("[VehiclePoseComponent].world_from_vehicle.transform", "frame.pose.transform", "list")>>)
    [] k = "camera_keypoints" ->
         LET C == "[CameraHumanKeypointsComponent].camera_keypoints[*]."
             p == "label.camera_keypoints.keypoint." IN
         CamLabelKey(<<R(C \o "type", p \o "type", "each-must"), R(C \o "keypoint_2d.location_px.x", p \o "keypoint_2d.location_px.x", "each0"),
             R(C \o "keypoint_2d.location_px.y", p \o "keypoint_2d.location_px.y", "each0"),
             R(C \o "keypoint_2d.visibility.is_occluded", p \o "keypoint_2d.visibility.is_occluded", "eachF"),
             R(C \o "keypoint_3d.location_m.x", "", "null"), R(C \o "keypoint_3d.location_m.y", "", "null"), R(C \o "keypoint_3d.location_m.z", "", "null"),
             R(C \o "keypoint_3d.visibility.is_occluded", "", "null")>>)
    [] k = "lidar_keypoints" ->
         LET C == "[LiDARHumanKeypointsComponent].lidar_keypoints[*]."
             p == "label.laser_keypoints.keypoint." IN
         LabelKey(<<R(C \o "type", p \o "type", "each-must"), R(C \o "keypoint_3d.location_m.x", p \o "keypoint_3d.location_m.x", "each0"),
             R(C \o "keypoint_3d.location_m.y", p \o "keypoint_3d.location_m.y", "each0"),
             R(C \o "keypoint_3d.location_m.z", p \o "keypoint_3d.location_m.z", "each0"),
             R(C \o "keypoint_3d.visibility.is_occluded", p \o "keypoint_3d.visibility.is_occluded", "eachF")>>)
    [] k = "lidar" -> LaserKey(Image("[LiDARComponent]", "1", "laser.ri_return1.range_image_compressed") \o Image("[LiDARComponent]", "2", "laser.ri_return2.range_image_compressed"))
    [] k = "projection" -> LaserKey(Image("[LiDARCameraProjectionComponent]", "1", "laser.ri_return1.camera_projection_compressed") \o
                                    Image("[LiDARCameraProjectionComponent]", "2", "laser.ri_return2.camera_projection_compressed"))
    [] k = "lidar_pose" -> LaserKey(Image("[LiDARPoseComponent]", "1", "laser.ri_return1.range_image_pose_compressed"))
    [] k = "lidar_segmentation" -> LaserKey(Image("[LiDARSegmentationLabelComponent]", "1", "laser.ri_return1.segmentation_label_compressed") \o
                                            Image("[LiDARSegmentationLabelComponent]", "2", "laser.ri_return2.segmentation_label_compressed"))
    [] k = "camera_segmentation" ->
         LET C == "[CameraSegmentationLabelComponent]."
             p == "image.camera_segmentation_label." IN
         CamKey("image.name", <<R(C \o "panoptic_label_divisor", p \o "panoptic_label_divisor", "0"), R(C \o "panoptic_label", p \o "panoptic_label", ""),
             R(C \o "instance_id_to_global_id_mapping.local_instance_ids", p \o "instance_id_to_global_id_mapping.local_instance_id", "each0"),
             R(C \o "instance_id_to_global_id_mapping.global_instance_ids", p \o "instance_id_to_global_id_mapping.global_instance_id", "each0"),
             R(C \o "instance_id_to_global_id_mapping.is_tracked", p \o "instance_id_to_global_id_mapping.is_tracked", "eachF"),
             R(C \o "sequence_id", p \o "sequence_id", ""), R(C \o "num_cameras_covered", p \o "num_cameras_covered", "")>>)
Kinds == {"lidar_box", "synced_box", "projected_box", "camera_box", "association", "camera_image", "camera_calibration", "lidar_calibration", "stats",
          "vehicle_pose", "camera_keypoints", "lidar_keypoints", "lidar", "projection", "lidar_pose", "lidar_segmentation", "camera_segmentation"}


Has(s, p) == p \in DOMAIN s
SomeSet(s, ps) == \E p \in ps : Has(s, p)
(* a row holds the item at all *)
Present(k, s) ==
  CASE k \in {"lidar_box", "projected_box", "camera_box"} -> Has(s, "label.box")
    [] k = "synced_box" -> Has(s, "label.camera_synced_box") /\ Has(s, "label.most_visible_camera_name") /\ s["label.most_visible_camera_name"] # <<"">>
    [] k = "association" -> Has(s, "label.association")
    [] k = "camera_keypoints" -> Has(s, "label.camera_keypoints")
    [] k = "lidar_keypoints" -> Has(s, "label.laser_keypoints")
    [] k = "camera_segmentation" -> Has(s, "image.camera_segmentation_label")
    [] k \in {"lidar", "projection", "lidar_pose", "lidar_segmentation"} -> LET rows == Columns(k) IN \E i \in DOMAIN rows : rows[i].m = "list?" /\ Has(s, rows[i].p)
    [] OTHER -> TRUE
(* fields an item must have, and fields it must not have *)
Inner(k) == CASE k = "camera_keypoints" -> {"label.camera_keypoints.keypoint.keypoint_2d", "label.camera_keypoints.keypoint.keypoint_2d.location_px",
                                            "label.camera_keypoints.keypoint.keypoint_2d.visibility"}
              [] k = "lidar_keypoints" -> {"label.laser_keypoints.keypoint.keypoint_3d", "label.laser_keypoints.keypoint.keypoint_3d.location_m",
                                           "label.laser_keypoints.keypoint.keypoint_3d.visibility"}
              [] OTHER -> {}
Never(k) == IF k \in {"projected_box", "camera_box"} THEN {"label.box.center_z", "label.box.height", "label.box.heading"} ELSE {}
Cameras == <<"UNKNOWN", "FRONT", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT">>
CameraNo(name) == {i - 1 : i \in {j \in DOMAIN Cameras : Cameras[j] = name}}
(* the id of a projected label is the id of the lidar object, 22 characters, and the camera *)
Split(id) == {<<SubSeq(id, 1, 22), j - 1>> : j \in {c \in DOMAIN Cameras : Len(id) > 22 /\ SubSeq(id, 23, Len(id)) = "_" \o Cameras[c]}}
Whole(k, s) ==
  /\ \A r \in TLCEval(SeqToSet(Columns(k))) :
       /\ r.m = "must" => Has(s, r.p)
       /\ (r.m = "meta-must" /\ Has(s, "label.metadata")) => Has(s, r.p)
       /\ (r.m = "each-must" /\ Has(s, r.p)) => \A i \in DOMAIN s[r.p] : s[r.p][i] # "-"
       /\ r.m = "at9" => Has(s, r.p) /\ Len(s[r.p]) > 9
       /\ r.m = "camera" => CameraNo(s[r.p][1]) # {}
  /\ \A p \in Inner(k) : Has(s, p) => \A i \in DOMAIN s[p] : s[p][i] # "-"
  /\ \A p \in Never(k) : ~Has(s, p)
  /\ k = "projected_box" => Has(s, "label.id") /\ Split(s["label.id"][1]) # {}
Fill(v, d) == [i \in DOMAIN v |-> IF v[i] = "-" THEN d ELSE v[i]]
Num == <<"0", "1", "2", "3", "4", "5">>
Value(k, s, r) ==
  LET m == r.m
      set == Has(s, r.p)
      v == IF set THEN s[r.p] ELSE <<>> IN
  CASE k = "projected_box" /\ r.c = "key.camera_name" -> <<Num[(CHOOSE x \in Split(v[1]) : TRUE)[2] + 1]>>
    [] m = "object-of" -> <<(CHOOSE x \in Split(v[1]) : TRUE)[1]>>
    [] m = "null" -> Null
    [] m = "camera" -> <<Num[(CHOOSE x \in CameraNo(v[1]) : TRUE) + 1]>>
    [] m \in {"must", "0", ""} -> IF set THEN v ELSE <<m>>
    [] m = "meta-must" -> IF Has(s, "label.metadata") THEN v ELSE Null
    [] m = "meta-0" -> IF Has(s, "label.metadata") THEN (IF set THEN v ELSE <<"0">>) ELSE Null
    [] m = "levels" -> IF SomeSet(s, {"label.detection_difficulty_level", "label.tracking_difficulty_level"}) THEN (IF set THEN v ELSE <<"0">>) ELSE Null
    [] m = "list" -> IF set THEN v ELSE <<"[">>
    [] m = "list?" -> IF set THEN v ELSE Null
    [] m = "each0?" -> IF set THEN Fill(v, "0") ELSE Null
    [] m \in {"each0", "each-must"} -> IF set THEN Fill(v, "0") ELSE <<"[">>
    [] m = "eachF" -> IF set THEN Fill(v, "false") ELSE <<"[">>
    [] OTHER -> LET n == CHOOSE i \in 1..9 : m = (<<"at1", "at2", "at3", "at4", "at5", "at6", "at7", "at8", "at9">>)[i] IN <<v[n + 1]>>
Outcome(k, s) == IF ~Present(k, s) THEN "nothing" ELSE IF Whole(k, s) THEN "row" ELSE "refused"
Row(k, s) == LET rows == TLCEval(Columns(k)) IN TLCEval([c \in {rows[i].c : i \in DOMAIN rows} |-> Value(k, s, rows[CHOOSE i \in DOMAIN rows : rows[i].c = c])])
=============================================================================
