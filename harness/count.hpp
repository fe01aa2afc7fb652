#pragma once
namespace cnt { long blocks(); long bytes(); }
