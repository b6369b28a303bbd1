//! Reference tables of the game's classes, spawn data and attribute kinds, as documented at the
//! pinned commit. These are the expectations; they are not read from the tree under test.

pub static ATTRS: &[(&str, K)] = &[
    ("Engine.Actor:bBlockActors", K::Boolean),
    ("Engine.Actor:bCollideActors", K::Boolean),
    ("Engine.Actor:bCollideWorld", K::Boolean),
    ("Engine.Actor:bHidden", K::Boolean),
    ("Engine.Actor:bNetOwner", K::Boolean),
    ("Engine.Actor:bTearOff", K::Boolean),
    ("Engine.Actor:DrawScale", K::Float),
    ("Engine.Actor:RemoteRole", K::Enum),
    ("Engine.Actor:Role", K::Enum),
    ("Engine.Actor:Rotation", K::RotationTag),
    ("Engine.GameReplicationInfo:bMatchIsOver", K::Boolean),
    ("Engine.GameReplicationInfo:GameClass", K::ActiveActor),
    ("Engine.GameReplicationInfo:ServerName", K::String),
    ("Engine.Pawn:bFastAttachedMove", K::Boolean),
    ("Engine.Pawn:bIsCrouched", K::Boolean),
    ("Engine.Pawn:bUsedByMatinee", K::Boolean),
    ("Engine.Pawn:HealthMax", K::Int),
    ("Engine.Pawn:PlayerReplicationInfo", K::ActiveActor),
    ("Engine.Pawn:RemoteViewPitch", K::Byte),
    ("Engine.PlayerReplicationInfo:bAdmin", K::Boolean),
    ("Engine.PlayerReplicationInfo:bBot", K::Boolean),
    ("Engine.PlayerReplicationInfo:bIsSpectator", K::Boolean),
    ("Engine.PlayerReplicationInfo:bReadyToPlay", K::Boolean),
    ("Engine.PlayerReplicationInfo:bTimedOut", K::Boolean),
    ("Engine.PlayerReplicationInfo:bWaitingPlayer", K::Boolean),
    ("Engine.PlayerReplicationInfo:Ping", K::Byte),
    ("Engine.PlayerReplicationInfo:PlayerID", K::Int),
    ("Engine.PlayerReplicationInfo:PlayerName", K::String),
    ("Engine.PlayerReplicationInfo:RemoteUserData", K::String),
    ("Engine.PlayerReplicationInfo:Score", K::Int),
    ("Engine.PlayerReplicationInfo:Team", K::ActiveActor),
    ("Engine.PlayerReplicationInfo:UniqueId", K::UniqueId),
    ("Engine.ReplicatedActor_ORS:ReplicatedOwner", K::ActiveActor),
    ("Engine.TeamInfo:Score", K::Int),
    ("ProjectX.GRI_X:bGameStarted", K::Boolean),
    ("ProjectX.GRI_X:GameServerID", K::QWordString),
    ("ProjectX.GRI_X:MatchGuid", K::String),
    ("ProjectX.GRI_X:MatchGUID", K::String),
    ("ProjectX.GRI_X:ReplicatedGameMutatorIndex", K::Int),
    ("ProjectX.GRI_X:ReplicatedGamePlaylist", K::Int),
    ("ProjectX.GRI_X:ReplicatedServerRegion", K::String),
    ("ProjectX.GRI_X:Reservations", K::Reservation),
    ("TAGame.Ball_Breakout_TA:AppliedDamage", K::AppliedDamage),
    ("TAGame.Ball_Breakout_TA:DamageIndex", K::Int),
    ("TAGame.Ball_Breakout_TA:LastTeamTouch", K::Byte),
    ("TAGame.Ball_Fire_TA:TeamNumChangeTimestamp", K::Float),
    ("TAGame.Ball_God_TA:TargetSpeed", K::Float),
    ("TAGame.Ball_Haunted_TA:bIsBallBeamed", K::Boolean),
    ("TAGame.Ball_Haunted_TA:DeactivatedGoalIndex", K::Byte),
    ("TAGame.Ball_Haunted_TA:LastTeamTouch", K::Byte),
    ("TAGame.Ball_Haunted_TA:ReplicatedBeamBrokenValue", K::Byte),
    ("TAGame.Ball_Haunted_TA:TotalActiveBeams", K::Byte),
    ("TAGame.Ball_Spawner_TA:SpawnDelaySeconds", K::Float),
    ("TAGame.Ball_Spawner_TA:SpawnedBall", K::ActiveActor),
    ("TAGame.Ball_TA:AdditionalCarGroundBounceScaleXY", K::Float),
    ("TAGame.Ball_TA:AdditionalCarGroundBounceScaleZ", K::Float),
    ("TAGame.Ball_TA:AirResistance", K::Location),
    ("TAGame.Ball_TA:BallHitSpinScale", K::Float),
    ("TAGame.Ball_TA:bPossessionEnabled", K::Boolean),
    ("TAGame.Ball_TA:bWarnBallReset", K::Boolean),
    ("TAGame.Ball_TA:GameBallIndex", K::Int),
    ("TAGame.Ball_TA:GameEvent", K::ActiveActor),
    ("TAGame.Ball_TA:HitTeamNum", K::Byte),
    ("TAGame.Ball_TA:MagnusMinSpeed", K::Float),
    ("TAGame.Ball_TA:ReplicatedAddedCarBounceScale", K::Float),
    ("TAGame.Ball_TA:ReplicatedBallGravityScale", K::Float),
    ("TAGame.Ball_TA:ReplicatedBallMaxLinearSpeedScale", K::Float),
    ("TAGame.Ball_TA:ReplicatedBallScale", K::Float),
    ("TAGame.Ball_TA:ReplicatedExplosionData", K::Explosion),
    ("TAGame.Ball_TA:ReplicatedExplosionDataExtended", K::ExtendedExplosion),
    ("TAGame.Ball_TA:ReplicatedPhysMatOverride", K::ActiveActor),
    ("TAGame.Ball_TA:ReplicatedWorldBounceScale", K::Float),
    ("TAGame.BallKeepUpComponent_TA:BallOwner", K::ActiveActor),
    ("TAGame.BallKeepUpComponent_TA:KeepUpState", K::Byte),
    ("TAGame.BallKeepUpComponent_TA:Score", K::Int),
    ("TAGame.BreakOutActor_Platform_TA:DamageState", K::DamageState),
    ("TAGame.CameraSettingsActor_TA:bMouseCameraToggleEnabled", K::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingBehindView", K::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingSecondaryCamera", K::Boolean),
    ("TAGame.CameraSettingsActor_TA:bUsingSwivel", K::Boolean),
    ("TAGame.CameraSettingsActor_TA:CameraPitch", K::Byte),
    ("TAGame.CameraSettingsActor_TA:CameraYaw", K::Byte),
    ("TAGame.CameraSettingsActor_TA:PRI", K::ActiveActor),
    ("TAGame.CameraSettingsActor_TA:ProfileSettings", K::CamSettings),
    ("TAGame.Cannon_TA:FireCount", K::Byte),
    ("TAGame.Cannon_TA:Pitch", K::Float),
    ("TAGame.Car_KnockOut_TA:ReplicatedImpulse", K::Impulse),
    ("TAGame.Car_KnockOut_TA:ReplicatedStateChanged", K::Byte),
    ("TAGame.Car_KnockOut_TA:ReplicatedStateName", K::Int),
    ("TAGame.Car_KnockOut_TA:UsedAttackComponent", K::ActiveActor),
    ("TAGame.Car_TA:AddedBallForceMultiplier", K::Float),
    ("TAGame.Car_TA:AddedCarForceMultiplier", K::Float),
    ("TAGame.Car_TA:AttachedPickup", K::ActiveActor),
    ("TAGame.Car_TA:bUnlimitedJumps", K::Boolean),
    ("TAGame.Car_TA:bUnlimitedTimeForDodge", K::Boolean),
    ("TAGame.Car_TA:ClubColors", K::ClubColors),
    ("TAGame.Car_TA:DodgesRefreshedCounter", K::Int),
    ("TAGame.Car_TA:ReplicatedCarMaxLinearSpeedScale", K::Float),
    ("TAGame.Car_TA:ReplicatedCarScale", K::Float),
    ("TAGame.Car_TA:ReplicatedDemolish_CustomFX", K::DemolishFx),
    ("TAGame.Car_TA:ReplicatedDemolish", K::Demolish),
    ("TAGame.Car_TA:ReplicatedDemolishExtended", K::DemolishExtended),
    ("TAGame.Car_TA:ReplicatedDemolishGoalExplosion", K::DemolishFx),
    ("TAGame.Car_TA:RumblePickups", K::ActiveActor),
    ("TAGame.Car_TA:TeamPaint", K::TeamPaint),
    ("TAGame.CarComponent_AirActivate_TA:AirActivateCount", K::Int),
    ("TAGame.CarComponent_Boost_TA:bNoBoost", K::Boolean),
    ("TAGame.CarComponent_Boost_TA:BoostModifier", K::Float),
    ("TAGame.CarComponent_Boost_TA:BoostRestriction", K::Byte),
    ("TAGame.CarComponent_Boost_TA:bRechargeGroundOnly", K::Boolean),
    ("TAGame.CarComponent_Boost_TA:bUnlimitedBoost", K::Boolean),
    ("TAGame.CarComponent_Boost_TA:RechargeDelay", K::Float),
    ("TAGame.CarComponent_Boost_TA:RechargeRate", K::Float),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoost", K::ReplicatedBoost),
    ("TAGame.CarComponent_Boost_TA:ReplicatedBoostAmount", K::Byte),
    ("TAGame.CarComponent_Boost_TA:UnlimitedBoostRefCount", K::Int),
    ("TAGame.CarComponent_Dodge_KO_TA:DodgeRotationCompressed", K::Int),
    ("TAGame.CarComponent_Dodge_TA:DodgeImpulse", K::Location),
    ("TAGame.CarComponent_Dodge_TA:DodgeTorque", K::Location),
    ("TAGame.CarComponent_DoubleJump_TA:DoubleJumpImpulse", K::Location),
    ("TAGame.CarComponent_FlipCar_TA:bFlipRight", K::Boolean),
    ("TAGame.CarComponent_FlipCar_TA:FlipCarTime", K::Float),
    ("TAGame.CarComponent_TA:ReplicatedActive", K::Byte),
    ("TAGame.CarComponent_TA:ReplicatedActivityTime", K::Float),
    ("TAGame.CarComponent_TA:Vehicle", K::ActiveActor),
    ("TAGame.CarComponent_Torque_TA:ReplicatedTorqueInput", K::Int),
    ("TAGame.CarComponent_Torque_TA:TorqueScale", K::Float),
    ("TAGame.CrowdActor_TA:GameEvent", K::ActiveActor),
    ("TAGame.CrowdActor_TA:ModifiedNoise", K::Float),
    ("TAGame.CrowdActor_TA:ReplicatedCountDownNumber", K::Int),
    ("TAGame.CrowdActor_TA:ReplicatedOneShotSound", K::ActiveActor),
    ("TAGame.CrowdActor_TA:ReplicatedRoundCountDownNumber", K::Int),
    ("TAGame.CrowdManager_TA:GameEvent", K::ActiveActor),
    ("TAGame.CrowdManager_TA:ReplicatedGlobalOneShotSound", K::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:bAllowHonorDuels", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bBallHasBeenHit", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bClubMatch", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bDisableCrowdSound", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bFullClubMatch", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bFullMatchWinnerDecided", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bGoalsEnabled", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bMatchCreatorAdminEnabled", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bMatchEnded", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bNoContest", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bOverTime", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bReadyToStartGame", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bShouldSpawnGoalIndicators", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bShowIntroScene", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:bUnlimitedTime", K::Boolean),
    ("TAGame.GameEvent_Soccar_TA:GameTime", K::Int),
    ("TAGame.GameEvent_Soccar_TA:GameWinner", K::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MatchWinner", K::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:MaxScore", K::Int),
    ("TAGame.GameEvent_Soccar_TA:MVP", K::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedMusicStinger", K::MusicStinger),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedScoredOnTeam", K::Byte),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedServerPerformanceState", K::Byte),
    ("TAGame.GameEvent_Soccar_TA:ReplicatedStatEvent", K::StatEvent),
    ("TAGame.GameEvent_Soccar_TA:RoundNum", K::Int),
    ("TAGame.GameEvent_Soccar_TA:SecondsRemaining", K::Int),
    ("TAGame.GameEvent_Soccar_TA:SeriesLength", K::Int),
    ("TAGame.GameEvent_Soccar_TA:SubRulesArchetype", K::ActiveActor),
    ("TAGame.GameEvent_Soccar_TA:TotalGameBalls", K::Int),
    ("TAGame.GameEvent_SoccarPrivate_TA:MatchSettings", K::PrivateMatchSettings),
    ("TAGame.GameEvent_TA:bAllowReadyUp", K::Boolean),
    ("TAGame.GameEvent_TA:bAlwaysShowMatchTypeLabel", K::Boolean),
    ("TAGame.GameEvent_TA:bCanVoteToForfeit", K::Boolean),
    ("TAGame.GameEvent_TA:bHasLeaveMatchPenalty", K::Boolean),
    ("TAGame.GameEvent_TA:bIsBotMatch", K::Boolean),
    ("TAGame.GameEvent_TA:BotSkill", K::Int),
    ("TAGame.GameEvent_TA:GameMode", K::GameMode),
    ("TAGame.GameEvent_TA:MatchStartEpoch", K::Int64),
    ("TAGame.GameEvent_TA:MatchTypeClass", K::ActiveActor),
    ("TAGame.GameEvent_TA:ReplicatedGameStateTimeRemaining", K::Int),
    ("TAGame.GameEvent_TA:ReplicatedRoundCountDownNumber", K::Int),
    ("TAGame.GameEvent_TA:ReplicatedStateIndex", K::Byte),
    ("TAGame.GameEvent_TA:ReplicatedStateName", K::Int),
    ("TAGame.GameEvent_TA:RichPresenceString", K::String),
    ("TAGame.GameEvent_Team_TA:bDisableMutingOtherTeam", K::Boolean),
    ("TAGame.GameEvent_Team_TA:bDisableQuickChat", K::Boolean),
    ("TAGame.GameEvent_Team_TA:bForfeit", K::Boolean),
    ("TAGame.GameEvent_Team_TA:MaxTeamSize", K::Int),
    ("TAGame.GRI_TA:bAllowTargetFind", K::Boolean),
    ("TAGame.GRI_TA:LanMatchGUID", K::String),
    ("TAGame.GRI_TA:NewDedicatedServerIP", K::String),
    ("TAGame.KeepUpIndicator_TA:ComponentOwner", K::ActiveActor),
    ("TAGame.MaxTimeWarningData_TA:EndGameEpochTime", K::Int64),
    ("TAGame.MaxTimeWarningData_TA:EndGameWarningEpochTime", K::Int64),
    ("TAGame.PickupTimer_TA:MaxTimeTillItem", K::Int),
    ("TAGame.PickupTimer_TA:TimeTillItem", K::Int),
    ("TAGame.PlayerStart_Platform_TA:bActive", K::Boolean),
    ("TAGame.PRI_KnockOut_TA:bIsActiveMVP", K::Boolean),
    ("TAGame.PRI_KnockOut_TA:bIsEliminated", K::Boolean),
    ("TAGame.PRI_KnockOut_TA:Blocks", K::Int),
    ("TAGame.PRI_KnockOut_TA:DamageCaused", K::Int),
    ("TAGame.PRI_KnockOut_TA:EliminationOrder", K::Int),
    ("TAGame.PRI_KnockOut_TA:Grabs", K::Int),
    ("TAGame.PRI_KnockOut_TA:Hits", K::Int),
    ("TAGame.PRI_KnockOut_TA:KnockoutDeaths", K::Int),
    ("TAGame.PRI_KnockOut_TA:Knockouts", K::Int),
    ("TAGame.PRI_TA:AnonymizedName", K::String),
    ("TAGame.PRI_TA:bAnonymizeToOpponents", K::Boolean),
    ("TAGame.PRI_TA:bAnonymizeToTeammates", K::Boolean),
    ("TAGame.PRI_TA:bIdleBanned", K::Boolean),
    ("TAGame.PRI_TA:bIsDistracted", K::Boolean),
    ("TAGame.PRI_TA:bIsInSplitScreen", K::Boolean),
    ("TAGame.PRI_TA:bMatchMVP", K::Boolean),
    ("TAGame.PRI_TA:bOnlineLoadoutSet", K::Boolean),
    ("TAGame.PRI_TA:bOnlineLoadoutsSet", K::Boolean),
    ("TAGame.PRI_TA:BotBannerProductID", K::Int),
    ("TAGame.PRI_TA:BotProductName", K::Int),
    ("TAGame.PRI_TA:bReady", K::Boolean),
    ("TAGame.PRI_TA:bReceivedAnonymizationSettings", K::Boolean),
    ("TAGame.PRI_TA:bUsingBehindView", K::Boolean),
    ("TAGame.PRI_TA:bUsingItems", K::Boolean),
    ("TAGame.PRI_TA:bUsingSecondaryCamera", K::Boolean),
    ("TAGame.PRI_TA:CameraPitch", K::Byte),
    ("TAGame.PRI_TA:CameraSettings", K::CamSettings),
    ("TAGame.PRI_TA:CameraYaw", K::Byte),
    ("TAGame.PRI_TA:CarDemolitions", K::Int),
    ("TAGame.PRI_TA:ClientLoadout", K::Loadout),
    ("TAGame.PRI_TA:ClientLoadoutOnline", K::LoadoutOnline),
    ("TAGame.PRI_TA:ClientLoadouts", K::TeamLoadout),
    ("TAGame.PRI_TA:ClientLoadoutsOnline", K::LoadoutsOnline),
    ("TAGame.PRI_TA:ClubID", K::Int64),
    ("TAGame.PRI_TA:CurrentVoiceRoom", K::String),
    ("TAGame.PRI_TA:EpicPUID", K::String),
    ("TAGame.PRI_TA:KeepUpPossessions", K::Int),
    ("TAGame.PRI_TA:MatchAssists", K::Int),
    ("TAGame.PRI_TA:MatchBreakoutDamage", K::Int),
    ("TAGame.PRI_TA:MatchDemolishes", K::Int),
    ("TAGame.PRI_TA:MatchGoals", K::Int),
    ("TAGame.PRI_TA:MatchSaves", K::Int),
    ("TAGame.PRI_TA:MatchScore", K::Int),
    ("TAGame.PRI_TA:MatchShots", K::Int),
    ("TAGame.PRI_TA:MaxTimeTillItem", K::Int),
    ("TAGame.PRI_TA:PartyLeader", K::PartyLeader),
    ("TAGame.PRI_TA:PawnType", K::Byte),
    ("TAGame.PRI_TA:PersistentCamera", K::ActiveActor),
    ("TAGame.PRI_TA:PlayerHistoryKey", K::PlayerHistoryKey),
    ("TAGame.PRI_TA:PlayerHistoryValid", K::Boolean),
    ("TAGame.PRI_TA:PossessionClears", K::Int),
    ("TAGame.PRI_TA:PossessionDenials", K::Int),
    ("TAGame.PRI_TA:PossessionSteals", K::Int),
    ("TAGame.PRI_TA:PrimaryTitle", K::Title),
    ("TAGame.PRI_TA:ReplicatedGameEvent", K::ActiveActor),
    ("TAGame.PRI_TA:ReplicatedWorstNetQualityBeyondLatency", K::Byte),
    ("TAGame.PRI_TA:RepStatTitles", K::RepStatTitle),
    ("TAGame.PRI_TA:SecondaryTitle", K::Title),
    ("TAGame.PRI_TA:SelfDemolitions", K::Int),
    ("TAGame.PRI_TA:SkillTier", K::FlaggedByte),
    ("TAGame.PRI_TA:SpectatorShortcut", K::Int),
    ("TAGame.PRI_TA:SteeringSensitivity", K::Float),
    ("TAGame.PRI_TA:TimeTillItem", K::Int),
    ("TAGame.PRI_TA:Title", K::Int),
    ("TAGame.PRI_TA:TotalGameTimePlayed", K::Float),
    ("TAGame.PRI_TA:TotalIdleTime", K::Float),
    ("TAGame.PRI_TA:TotalXP", K::Int),
    ("TAGame.PRI_TA:ViralItemActor", K::ActiveActor),
    ("TAGame.RBActor_TA:bFrozen", K::Boolean),
    ("TAGame.RBActor_TA:bIgnoreSyncing", K::Boolean),
    ("TAGame.RBActor_TA:bReplayActor", K::Boolean),
    ("TAGame.RBActor_TA:ReplicatedRBState", K::RigidBody),
    ("TAGame.RBActor_TA:TeleportCounter", K::Byte),
    ("TAGame.RBActor_TA:WeldedInfo", K::Welded),
    ("TAGame.RumblePickups_TA:AttachedPickup", K::ActiveActor),
    ("TAGame.RumblePickups_TA:ConcurrentItemCount", K::Int),
    ("TAGame.RumblePickups_TA:PickupInfo", K::PickupInfo),
    ("TAGame.SpecialPickup_BallFreeze_TA:RepOrigSpeed", K::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:AttachTime", K::Float),
    ("TAGame.SpecialPickup_BallVelcro_TA:bBroken", K::Boolean),
    ("TAGame.SpecialPickup_BallVelcro_TA:bHit", K::Boolean),
    ("TAGame.SpecialPickup_BallVelcro_TA:BreakTime", K::Float),
    ("TAGame.SpecialPickup_Football_TA:WeldedBall", K::ActiveActor),
    ("TAGame.SpecialPickup_Rugby_TA:bBallWelded", K::Boolean),
    ("TAGame.SpecialPickup_Targeted_TA:Targeted", K::ActiveActor),
    ("TAGame.Stunlock_TA:Car", K::ActiveActor),
    ("TAGame.Stunlock_TA:MashTime", K::Float),
    ("TAGame.Stunlock_TA:MaxStunTime", K::Float),
    ("TAGame.Stunlock_TA:StunTimeRemaining", K::Float),
    ("TAGame.Team_Soccar_TA:GameScore", K::Int),
    ("TAGame.Team_TA:ClubColors", K::ClubColors),
    ("TAGame.Team_TA:ClubID", K::Int64),
    ("TAGame.Team_TA:CustomTeamName", K::String),
    ("TAGame.Team_TA:Difficulty", K::Int),
    ("TAGame.Team_TA:GameEvent", K::ActiveActor),
    ("TAGame.Team_TA:LogoData", K::LogoData),
    ("TAGame.Vehicle_TA:bDriving", K::Boolean),
    ("TAGame.Vehicle_TA:bHasPostMatchCelebration", K::Boolean),
    ("TAGame.Vehicle_TA:bPodiumMode", K::Boolean),
    ("TAGame.Vehicle_TA:bReplicatedHandbrake", K::Boolean),
    ("TAGame.Vehicle_TA:InputRestriction", K::Byte),
    ("TAGame.Vehicle_TA:ReplicatedSteer", K::Byte),
    ("TAGame.Vehicle_TA:ReplicatedThrottle", K::Byte),
    ("TAGame.VehiclePickup_TA:bNoPickup", K::Boolean),
    ("TAGame.VehiclePickup_TA:NewReplicatedPickupData", K::PickupNew),
    ("TAGame.VehiclePickup_TA:ReplicatedPickupData", K::Pickup),
    ("TAGame.ViralItemActor_TA:ClientFXInfectedType", K::Byte),
    ("TAGame.ViralItemActor_TA:InfectedStatus", K::Byte),
];

pub static PARENTS: &[(&str, &str)] = &[
    ("Archetypes.Ball.Ball_Anniversary", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_BasketBall_Mutator", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Basketball", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_BasketBall", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Beachball", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Breakout", "TAGame.Ball_Breakout_TA"),
    ("Archetypes.Ball.Ball_Default", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Ekin", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Fire_Obstacle", "TAGame.Ball_Fire_TA"),
    ("Archetypes.Ball.Ball_Fire", "TAGame.Ball_Fire_TA"),
    ("Archetypes.Ball.Ball_Football", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_God", "TAGame.Ball_God_TA"),
    ("Archetypes.Ball.Ball_Haunted", "TAGame.Ball_Haunted_TA"),
    ("Archetypes.Ball.ball_luminousairplane", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_PizzaPuck", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Puck", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_RingSpawner", "TAGame.Ball_Spawner_TA"),
    ("Archetypes.Ball.Ball_Score", "TAGame.Ball_Breakout_TA"),
    ("Archetypes.Ball.Ball_Shoe", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_SpookyBalloon", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Strike", "TAGame.Ball_TA"),
    ("Archetypes.Ball.Ball_Training", "TAGame.Ball_Tutorial_TA"),
    ("Archetypes.Ball.Ball_Trajectory", "TAGame.Ball_Trajectory_TA"),
    ("Archetypes.Ball.Ball_Tutorial", "TAGame.Ball_Tutorial_TA"),
    ("Archetypes.Ball.Ball_WorldCup", "TAGame.Ball_TA"),
    ("Archetypes.Ball.BallComponent_KeepUp", "TAGame.BallKeepUpComponent_TA"),
    ("Archetypes.Ball.CubeBall", "TAGame.Ball_TA"),
    ("Archetypes.Car.Car_Default", "TAGame.Car_TA"),
    ("Archetypes.Car.Car_PostGameLobby", "TAGame.Car_Freeplay_TA"),
    ("Archetypes.CarComponents.CarComponent_Boost", "TAGame.CarComponent_Boost_TA"),
    ("Archetypes.CarComponents.CarComponent_Dodge", "TAGame.CarComponent_Dodge_TA"),
    ("Archetypes.CarComponents.CarComponent_DoubleJump", "TAGame.CarComponent_DoubleJump_TA"),
    ("Archetypes.CarComponents.CarComponent_FlipCar", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.CarComponents.CarComponent_Jump", "TAGame.CarComponent_Jump_TA"),
    ("Archetypes.CarComponents.CarComponent_TerritoryDemolish", "TAGame.CarComponent_TerritoryDemolish_TA"),
    ("Archetypes.GameEvent.GameEvent_Basketball", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_BasketballPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_BasketballSplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Breakout", "TAGame.GameEvent_Breakout_TA"),
    ("Archetypes.GameEvent.GameEvent_FTE_Part1_Prime", "TAGame.GameEvent_FTE_TA"),
    ("Archetypes.GameEvent.GameEvent_Hockey", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_HockeyPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_HockeySplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Items", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_Season:CarArchetype", "TAGame.Car_Season_TA"),
    ("Archetypes.GameEvent.GameEvent_Season", "TAGame.GameEvent_Season_TA"),
    ("Archetypes.GameEvent.GameEvent_Soccar", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarLan", "TAGame.GameEvent_Soccar_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarPrivate", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("Archetypes.GameEvent.GameEvent_SoccarSplitscreen", "TAGame.GameEvent_SoccarSplitscreen_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_Advanced", "TAGame.GameEvent_Tutorial_Advanced_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_Basic", "TAGame.GameEvent_Tutorial_Basic_TA"),
    ("Archetypes.GameEvent.GameEvent_Tutorial_FreePlay", "TAGame.GameEvent_Tutorial_FreePlay_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Boost", "TAGame.CarComponent_Boost_KO_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Dodge", "TAGame.CarComponent_Dodge_KO_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.DoubleJump", "TAGame.CarComponent_DoubleJump_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Flip", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Jump", "TAGame.CarComponent_Jump_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.StunlockArchetype", "TAGame.Stunlock_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype.Torque", "TAGame.CarComponent_Torque_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout:CarArchetype", "TAGame.Car_KnockOut_TA"),
    ("Archetypes.KnockOut.GameEvent_Knockout", "TAGame.GameEvent_KnockOut_TA"),
    ("Archetypes.Misc.KeepUpIndicator", "TAGame.KeepUpIndicator_TA"),
    ("Archetypes.Mutators.Mutator_Robin:AutoFlip", "TAGame.CarComponent_FlipCar_TA"),
    ("Archetypes.Mutators.Mutator_Robin:DoubleJump", "TAGame.CarComponent_DoubleJump_Robin_TA"),
    ("Archetypes.Mutators.Mutator_Robin:Jump", "TAGame.CarComponent_Jump_Robin_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj_1", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj_2", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.Mutators.SubRules.ItemsMode_RPS:DispenserArchetype.ItemPool.Obj", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.BM.SpecialPickup_BallFreeze_BM", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallFreeze", "TAGame.SpecialPickup_BallFreeze_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallGrapplingHook", "TAGame.SpecialPickup_GrapplingHook_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallLasso", "TAGame.SpecialPickup_BallLasso_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallSpring", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BallVelcro", "TAGame.SpecialPickup_BallVelcro_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Batarang", "TAGame.SpecialPickup_Batarang_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_BoostOverride", "TAGame.SpecialPickup_BoostOverride_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_CarSpring", "TAGame.SpecialPickup_BallCarSpring_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Football", "TAGame.SpecialPickup_Football_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_GravityWell", "TAGame.SpecialPickup_BallGravity_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_HauntedBallBeam", "TAGame.SpecialPickup_HauntedBallBeam_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Rugby", "TAGame.SpecialPickup_Rugby_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_RugbyLightDark", "TAGame.SpecialPickup_Rugby_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_StrongHit", "TAGame.SpecialPickup_HitForce_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Swapper", "TAGame.SpecialPickup_Swapper_TA"),
    ("Archetypes.SpecialPickups.SpecialPickup_Tornado", "TAGame.SpecialPickup_Tornado_TA"),
    ("Archetypes.Teams.Team0", "TAGame.Team_Soccar_TA"),
    ("Archetypes.Teams.Team1", "TAGame.Team_Soccar_TA"),
    ("Archetypes.Teams.TeamWhite0", "TAGame.Team_Freeplay_TA"),
    ("Archetypes.Teams.TeamWhite1", "TAGame.Team_Freeplay_TA"),
    ("Archetypes.Tutorial.Cannon", "TAGame.Cannon_TA"),
    ("Engine.Actor", "Core.Object"),
    ("Engine.GameReplicationInfo", "Engine.ReplicationInfo"),
    ("Engine.Info", "Engine.Actor"),
    ("Engine.NavigationPoint", "Engine.Actor"),
    ("Engine.Pawn", "Engine.Actor"),
    ("Engine.PlayerReplicationInfo", "Engine.ReplicationInfo"),
    ("Engine.PlayerStart", "Engine.NavigationPoint"),
    ("Engine.ReplicatedActor_ORS", "Engine.Actor"),
    ("Engine.ReplicationInfo", "Engine.Info"),
    ("Engine.TeamInfo", "Engine.Info"),
    ("Engine.WorldInfo", "Engine.ZoneInfo"),
    ("Engine.ZoneInfo", "Engine.Info"),
    ("GameInfo_Basketball.GameInfo.GameInfo_Basketball:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Basketball.GameInfo.GameInfo_Basketball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Breakout.GameInfo.GameInfo_Breakout:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_FootBall.GameInfo.GameInfo_FootBall:Archetype", "TAGame.GameEvent_Football_TA"),
    ("GameInfo_FootBall.GameInfo.GameInfo_FootBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_FTE.GameInfo.GameInfo_FTE:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("gameinfo_godball.GameInfo.gameinfo_godball:Archetype", "TAGame.GameEvent_GodBall_TA"),
    ("GameInfo_GodBall.GameInfo.GameInfo_GodBall:Archetype", "TAGame.GameEvent_GodBall_TA"),
    ("gameinfo_godball.GameInfo.gameinfo_godball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_GodBall.GameInfo.GameInfo_GodBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_HeatseekerTerritory.GameInfo.GameInfo_HeatseekerTerritory:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_HeatseekerTerritory.GameInfo.GameInfo_HeatseekerTerritory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("Gameinfo_Hockey.GameInfo.Gameinfo_Hockey:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("Gameinfo_Hockey.GameInfo.Gameinfo_Hockey:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Hops.GameInfo.GameInfo_Hops:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Hops.GameInfo.GameInfo_Hops:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Items.GameInfo.GameInfo_Items:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_KnockOut.KnockOut.GameInfo_KnockOut:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_AprilFool.GameInfo.GameInfo_LTM_AprilFool:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_AprilFool.GameInfo.GameInfo_LTM_AprilFool:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_BeachBall.GameInfo.GameInfo_LTM_BeachBall:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_BeachBall.GameInfo.GameInfo_LTM_BeachBall:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_DropshotRumble.GameInfo.GameInfo_LTM_DropshotRumble:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_DropshotRumble.GameInfo.GameInfo_LTM_DropshotRumble:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SpeedDemon.GameInfo.GameInfo_LTM_SpeedDemon:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SpeedDemon.GameInfo.GameInfo_LTM_SpeedDemon:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SpikeRush.GameInfo.GameInfo_LTM_SpikeRush:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SpikeRush.GameInfo.GameInfo_LTM_SpikeRush:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_LTM_SuperCube.GameInfo.GameInfo_LTM_SuperCube:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_LTM_SuperCube.GameInfo.GameInfo_LTM_SuperCube:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_MagnusFutball.GameInfo.GameInfo_MagnusFutball:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_MagnusFutball.GameInfo.GameInfo_MagnusFutball:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Possession.GameInfo.GameInfo_Possession:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_Possession.GameInfo.GameInfo_Possession:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Season.GameInfo.GameInfo_Season:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_SnowDayTerritory.GameInfo.GameInfo_SnowDayTerritory:Archetype", "TAGame.GameEvent_Territory_TA"),
    ("GameInfo_SnowDayTerritory.GameInfo.GameInfo_SnowDayTerritory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Soccar.GameInfo.GameInfo_Soccar:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_SpikeDrop.GameInfo.GameInfo_SpikeDrop:Archetype", "TAGame.GameEvent_Soccar_TA"),
    ("GameInfo_SpikeDrop.GameInfo.GameInfo_SpikeDrop:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Territory.GameInfo.GameInfo_Territory:Archetype", "TAGame.GameEvent_Territory_TA"),
    ("GameInfo_Territory.GameInfo.GameInfo_Territory:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Aerial", "TAGame.GameEvent_Training_Aerial_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Goalie", "TAGame.GameEvent_Training_Goalie_TA"),
    ("GameInfo_Tutorial.GameEvent.GameEvent_Tutorial_Striker", "TAGame.GameEvent_Training_Striker_TA"),
    ("GameInfo_Tutorial.GameInfo.GameInfo_Tutorial:GameReplicationInfoArchetype", "TAGame.GRI_TA"),
    ("Haunted_TrainStation_P.TheWorld:PersistentLevel.HauntedBallTrapTrigger_TA_0", "TAGame.HauntedBallTrapTrigger_TA"),
    ("Haunted_TrainStation_P.TheWorld:PersistentLevel.HauntedBallTrapTrigger_TA_1", "TAGame.HauntedBallTrapTrigger_TA"),
    ("Mutators.Mutators.Mutators.FreePlay:CarArchetype", "TAGame.Car_Freeplay_TA"),
    ("Mutators.Mutators.Mutators.OnlineFreeplay:CarArchetype", "TAGame.Car_Freeplay_TA"),
    ("ProjectX.Default__NetModeReplicator_X", "ProjectX.NetModeReplicator_X"),
    ("ProjectX.GRI_X", "Engine.GameReplicationInfo"),
    ("ProjectX.NetModeReplicator_X", "Engine.ReplicationInfo"),
    ("ProjectX.Pawn_X", "Engine.Pawn"),
    ("ProjectX.PRI_X", "Engine.PlayerReplicationInfo"),
    ("TAGame.Ball_Breakout_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Fire_TA", "TAGame.Ball_God_TA"),
    ("TAGame.Ball_God_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Haunted_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Spawner_TA", "Engine.Actor"),
    ("TAGame.Ball_TA", "TAGame.RBActor_TA"),
    ("TAGame.Ball_Trajectory_TA", "TAGame.Ball_TA"),
    ("TAGame.Ball_Tutorial_TA", "TAGame.Ball_TA"),
    ("TAGame.BallKeepUpComponent_TA", "Engine.ReplicatedActor_ORS"),
    ("TAGame.BreakOutActor_Platform_TA", "Engine.Actor"),
    ("TAGame.CameraSettingsActor_TA", "Engine.ReplicationInfo"),
    ("TAGame.Cannon_TA", "Engine.Actor"),
    ("TAGame.Car_Freeplay_TA", "TAGame.Car_TA"),
    ("TAGame.Car_KnockOut_TA", "TAGame.Car_TA"),
    ("TAGame.Car_Season_TA", "TAGame.Car_TA"),
    ("TAGame.Car_TA", "TAGame.Vehicle_TA"),
    ("TAGame.CarComponent_AirActivate_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Boost_KO_TA", "TAGame.CarComponent_Boost_TA"),
    ("TAGame.CarComponent_Boost_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_Dodge_KO_TA", "TAGame.CarComponent_Dodge_TA"),
    ("TAGame.CarComponent_Dodge_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_DoubleJump_KO_TA", "TAGame.CarComponent_DoubleJump_TA"),
    ("TAGame.CarComponent_DoubleJump_Robin_TA", "TAGame.CarComponent_DoubleJump_TA"),
    ("TAGame.CarComponent_DoubleJump_TA", "TAGame.CarComponent_AirActivate_TA"),
    ("TAGame.CarComponent_FlipCar_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Jump_Robin_TA", "TAGame.CarComponent_Jump_TA"),
    ("TAGame.CarComponent_Jump_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_TA", "Engine.ReplicationInfo"),
    ("TAGame.CarComponent_TerritoryDemolish_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CarComponent_Torque_TA", "TAGame.CarComponent_TA"),
    ("TAGame.CrowdActor_TA", "Engine.ReplicationInfo"),
    ("TAGame.CrowdManager_TA", "Engine.ReplicationInfo"),
    ("TAGame.Default__CameraSettingsActor_TA", "TAGame.CameraSettingsActor_TA"),
    ("TAGame.Default__Car_TA", "TAGame.Car_TA"),
    ("TAGame.Default__FreeplayCommands_TA", "TAGame.FreeplayCommands_TA"),
    ("TAGame.Default__MaxTimeWarningData_TA", "TAGame.MaxTimeWarningData_TA"),
    ("TAGame.Default__PickupTimer_TA", "TAGame.PickupTimer_TA"),
    ("TAGame.Default__PRI_Breakout_TA", "TAGame.PRI_Breakout_TA"),
    ("TAGame.Default__PRI_KnockOut_TA", "TAGame.PRI_KnockOut_TA"),
    ("TAGame.Default__PRI_Possession_TA", "TAGame.PRI_Possession_TA"),
    ("TAGame.Default__PRI_TA", "TAGame.PRI_TA"),
    ("TAGame.Default__RumblePickups_TA", "TAGame.RumblePickups_TA"),
    ("TAGame.Default__TrackerWallDynamicMeshActor_TA", "TAGame.TrackerWallDynamicMeshActor_TA"),
    ("TAGame.Default__ViralItemActor_TA", "TAGame.ViralItemActor_TA"),
    ("TAGame.Default__VoteActor_TA", "TAGame.VoteActor_TA"),
    ("TAGame.DynamicMeshActor_TA", "Engine.Actor"),
    ("TAGame.FreeplayCommands_TA", "Engine.Actor"),
    ("TAGame.GameEvent_Breakout_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Football_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_FTE_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_GodBall_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_KnockOut_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Season_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Soccar_TA", "TAGame.GameEvent_Team_TA"),
    ("TAGame.GameEvent_SoccarPrivate_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_SoccarSplitscreen_TA", "TAGame.GameEvent_SoccarPrivate_TA"),
    ("TAGame.GameEvent_TA", "Engine.ReplicationInfo"),
    ("TAGame.GameEvent_Team_TA", "TAGame.GameEvent_TA"),
    ("TAGame.GameEvent_Territory_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GameEvent_Training_Aerial_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_Goalie_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_Striker_TA", "TAGame.GameEvent_Training_TA"),
    ("TAGame.GameEvent_Training_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_Advanced_TA", "TAGame.GameEvent_Tutorial_Basic_TA"),
    ("TAGame.GameEvent_Tutorial_Basic_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_FreePlay_TA", "TAGame.GameEvent_Tutorial_TA"),
    ("TAGame.GameEvent_Tutorial_TA", "TAGame.GameEvent_Soccar_TA"),
    ("TAGame.GRI_TA", "ProjectX.GRI_X"),
    ("TAGame.HauntedBallTrapTrigger_TA", "TAGame.DynamicMeshActor_TA"),
    ("TAGame.InMapScoreboard_TA", "Engine.Actor"),
    ("TAGame.KeepUpIndicator_TA", "Engine.Actor"),
    ("TAGame.MaxTimeWarningData_TA", "Engine.ReplicatedActor_ORS"),
    ("TAGame.PickupTimer_TA", "TAGame.CarComponent_TA"),
    ("TAGame.PlayerStart_Platform_TA", "Engine.Actor"),
    ("TAGame.PRI_Breakout_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_KnockOut_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_Possession_TA", "TAGame.PRI_TA"),
    ("TAGame.PRI_TA", "ProjectX.PRI_X"),
    ("TAGame.ProductAttribute_Blueprint_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_BlueprintCost_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Certified_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_NoNotify_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Painted_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_Quality_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_SpecialEdition_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_TA", "Core.Object"),
    ("TAGame.ProductAttribute_TeamEdition_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_TitleID_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.ProductAttribute_UserColor_TA", "TAGame.ProductAttribute_TA"),
    ("TAGame.RBActor_TA", "ProjectX.Pawn_X"),
    ("TAGame.Replay_Soccar_TA", "TAGame.Replay_TA"),
    ("TAGame.Replay_TA", "Core.Object"),
    ("TAGame.RumblePickups_TA", "Engine.Actor"),
    ("TAGame.SaveData_GameEditor_Training_TA", "Core.Object"),
    ("TAGame.SpecialPickup_BallCarSpring_TA", "TAGame.SpecialPickup_Spring_TA"),
    ("TAGame.SpecialPickup_BallFreeze_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_BallGravity_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_BallLasso_TA", "TAGame.SpecialPickup_Spring_TA"),
    ("TAGame.SpecialPickup_BallVelcro_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Batarang_TA", "TAGame.SpecialPickup_BallLasso_TA"),
    ("TAGame.SpecialPickup_BoostOverride_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_Football_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_GrapplingHook_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_HauntedBallBeam_TA", "TAGame.SpecialPickup_BallGravity_TA"),
    ("TAGame.SpecialPickup_HitForce_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Rugby_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Spring_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_Swapper_TA", "TAGame.SpecialPickup_Targeted_TA"),
    ("TAGame.SpecialPickup_TA", "TAGame.CarComponent_TA"),
    ("TAGame.SpecialPickup_Targeted_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.SpecialPickup_Tornado_TA", "TAGame.SpecialPickup_TA"),
    ("TAGame.Stunlock_TA", "Engine.Actor"),
    ("TAGame.Team_Freeplay_TA", "TAGame.Team_Soccar_TA"),
    ("TAGame.Team_Soccar_TA", "TAGame.Team_TA"),
    ("TAGame.Team_TA", "Engine.TeamInfo"),
    ("TAGame.TrackerWallDynamicMeshActor_TA", "TAGame.DynamicMeshActor_TA"),
    ("TAGame.TrainingEditorData_TA", "Core.Object"),
    ("TAGame.Vehicle_TA", "TAGame.RBActor_TA"),
    ("TAGame.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_TA"),
    ("TAGame.VehiclePickup_TA", "Engine.ReplicationInfo"),
    ("TAGame.ViralItemActor_TA", "Engine.Actor"),
    ("TheWorld:PersistentLevel.BreakOutActor_Platform_TA", "TAGame.BreakOutActor_Platform_TA"),
    ("TheWorld:PersistentLevel.CrowdActor_TA", "TAGame.CrowdActor_TA"),
    ("TheWorld:PersistentLevel.CrowdManager_TA", "TAGame.CrowdManager_TA"),
    ("TheWorld:PersistentLevel.InMapScoreboard_TA", "TAGame.InMapScoreboard_TA"),
    ("TheWorld:PersistentLevel.PlayerStart_Platform_TA", "TAGame.PlayerStart_Platform_TA"),
    ("TheWorld:PersistentLevel.VehiclePickup_Boost_TA", "TAGame.VehiclePickup_Boost_TA"),
];

/// 0 none, 1 location, 2 location and rotation
pub static SPAWNS: &[(&str, u8)] = &[
    ("Engine.Actor", 1),
    ("Engine.ZoneInfo", 0),
    ("TAGame.BreakOutActor_Platform_TA", 0),
    ("TAGame.CrowdActor_TA", 0),
    ("TAGame.CrowdManager_TA", 0),
    ("TAGame.HauntedBallTrapTrigger_TA", 0),
    ("TAGame.InMapScoreboard_TA", 0),
    ("TAGame.PlayerStart_Platform_TA", 0),
    ("TAGame.RBActor_TA", 2),
    ("TAGame.VehiclePickup_Boost_TA", 0),
    ("TAGame.KeepUpIndicator_TA", 2),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    ActiveActor,
    AppliedDamage,
    Boolean,
    Byte,
    CamSettings,
    ClubColors,
    DamageState,
    Demolish,
    DemolishExtended,
    DemolishFx,
    Enum,
    Explosion,
    ExtendedExplosion,
    FlaggedByte,
    Float,
    GameMode,
    Impulse,
    Int,
    Int64,
    Loadout,
    LoadoutOnline,
    LoadoutsOnline,
    Location,
    LogoData,
    MusicStinger,
    PartyLeader,
    Pickup,
    PickupInfo,
    PickupNew,
    PlayerHistoryKey,
    PrivateMatchSettings,
    QWordString,
    RepStatTitle,
    ReplicatedBoost,
    Reservation,
    RigidBody,
    RotationTag,
    StatEvent,
    String,
    TeamLoadout,
    TeamPaint,
    Title,
    UniqueId,
    Welded,
}
