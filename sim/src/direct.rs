//! Drivers that talk to a worker without a coordinator.
use crate::world::Scenario;
use std::sync::Arc;

pub async fn rendezvous(_s: &Arc<Scenario>) {}
